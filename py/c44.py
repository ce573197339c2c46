"""C44: calendar of events, history of an execution, loop in a thread."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import threading
import types

import numpy as np

from vpy import close, main, package, prop, st


class optionalparentheses:
    """as in dynamic_graph.script_shortcuts"""

    def __init__(self, functor):
        self.functor = functor

    def __repr__(self):
        self.functor()
        return ''

    def __call__(self, *a):
        return self.functor(*a)


sc = types.ModuleType('dynamic_graph.script_shortcuts')
sc.optionalparentheses = optionalparentheses
package({'dynamic_graph.script_shortcuts': sc})
import dynamic_graph.sot.core.utils.attime as at  # noqa
import dynamic_graph.sot.core.utils.history as hi  # noqa
import dynamic_graph.sot.core.utils.thread_interruptible_loop as tl  # noqa

op = st.tuples(st.sampled_from(['plain', 'doc', 'pair', 'two', 'deco', 'opt', 'builtin', 'stop', 'ping', 'run', 'run', 'run', 'ff', 'repr',
                                'nodoc']), st.one_of(st.integers(-1, 5), st.integers(-1, 5), st.sampled_from([9, 10, 11, 20])), st.sampled_from(['', 'stops', 'adds']), st.integers(0, 9))


@prop(st.lists(op, min_size=1, max_size=20))
def calendar(ops, ctx):
    cal = at.Calendar()
    log, want = [], []
    always, events, pings = [], {}, []  # model: lists of (id, behaviour, function, doc)
    n = [0]
    ran = stopped = 0

    def make(t, beh, doc=True):
        """a function which notes that it is called; a periodic one may stop itself, another one may schedule a new one later"""
        i = n[0] = n[0] + 1

        def fun(*args):
            log.append((i,) + args)
            if beh == 'stops' and t < 0:
                cal.stop(ref[0], *ref[1:])
            if beh == 'adds' and t >= 0:
                cal(t + 1, late, 'late %d' % i)

        def late(*args):
            log.append((-i,) + args)
        fun.__doc__ = 'doc %d' % i if doc else None
        ref = [fun]
        return i, fun, late, ref

    def when(t):
        return at.ALWAYS if t < 0 else t

    def note(t, i, beh, fun, doc, late):
        e = dict(i=i, beh=beh, doc=doc, t=t, late=late, fun=fun)
        (always if t < 0 else events.setdefault(t, [])).append(e)

    def model_run(t, args):
        nonlocal ran
        for e in list(always):
            want.append((e['i'],) + args)
            if e['beh'] == 'stops':
                always.remove(e)
        if t in events:
            want.extend(['ping'] * len(pings))
            for e in events[t]:
                ran += 1
                if e['i'] is not None:
                    want.append((e['i'],) + args)
                if e['beh'] == 'adds':
                    note(t + 1, -e['i'], '', None, 'late %d' % e['i'], None)

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for kind, t, beh, x in ops:
            if kind in ('plain', 'nodoc'):
                i, f, late, ref = make(t, beh, kind == 'plain')
                cal(when(t), f)
                note(t, i, beh, f, f.__doc__, late)
            elif kind == 'doc':
                i, f, late, ref = make(t, beh)
                ref.append('text')
                cal(when(t), f, 'text')
                note(t, i, beh, f, 'text', late)
            elif kind == 'pair':
                i, f, late, ref = make(t, beh)
                ref[:] = [(f, 'paired')]
                cal(when(t), (f, 'paired'))
                note(t, i, beh, f, 'paired', late)
            elif kind == 'two':
                fs = [make(t, beh) for _ in range(2)]
                cal(when(t), fs[0][1], fs[1][1])
                for i, f, late, ref in fs:
                    note(t, i, beh, f, f.__doc__, late)
            elif kind == 'deco':
                if beh == 'stops' and t < 0:
                    continue
                i, f, late, ref = make(t, beh)
                doc = f.__doc__
                g = at.__dict__['Calendar'].__call__(cal, when(t))(f)
                note(t, i, beh, f, doc, late)
                if x == 0:  # the function may still be called, its argument given
                    if beh == 'adds' and t >= 0:
                        note(t + 1, -i, '', None, 'late %d' % i, None)
                    g('direct')
                    want.append((i, 'direct'))
            elif kind == 'opt':
                i, f, late, ref = make(t, beh)
                cal(when(t), optionalparentheses(f))
                note(t, i, beh, f, f.__doc__, late)
            elif kind == 'builtin':
                if t < 0:
                    continue
                cal(t, ''.format)  # a function without attributes
                events.setdefault(t, []).append(dict(i=None, beh='', doc=''.format.__doc__, t=t, late=None, fun=None))
            elif kind == 'stop':
                c = [e for e in always if e['fun'] is not None]
                if c:
                    e = c[x % len(c)]
                    cal.stop((e['fun'], e['doc']))
                    always.remove(e)
                    stopped += 1
            elif kind == 'ping':
                pings.append(1)
                cal.addPing(lambda: log.append('ping'))
            elif kind == 'run':
                args = tuple(range(x % 3))
                del log[:], want[:]
                cal.run(t, *args)
                model_run(t, args)
            elif kind == 'ff':
                del log[:], want[:]
                cal.fastForward(t)
                for k in range(t + 1):
                    model_run(k, ())
            elif kind == 'repr':
                text = repr(cal)
                pos = -1
                for k in sorted(events):
                    p = ('\n' + text).find('\n%d: \n' % k)
                    assert p > pos or not events[k], 'time %d not written in order in %r' % (k, text)
                    pos = p
                for e in [e for es in events.values() for e in es] + always:
                    if e['doc']:
                        assert e['doc'] in text, '%s not written in %r' % (e['doc'], text)
                assert text.count('doc ') >= sum((e['doc'] or '').startswith('doc ') for es in events.values() for e in es)
            assert log == want, 'after %s: calls %s instead of %s' % ((kind, t), log, want)
    ctx.nontrivial(ran > 1 and (stopped or any(k == 'stops' for _, _, k, _ in ops)))


class Sig:
    def __init__(self, name, v=()):
        self.name, self.value, self.time = name, v, 0


val = st.one_of(st.floats(-50, 50), st.integers(-9, 9))


@prop(st.tuples(st.integers(1, 5), st.integers(0, 12), st.booleans(), st.booleans(), st.lists(val, min_size=40, max_size=40),
                st.integers(0, 50)))
def history(c, ctx):
    freq, steps, zmp, array, pool, x = c
    conv = np.array if array else tuple

    def vec(k, n):
        return conv([float(pool[(i * 7 + k * 3) % 40]) + k for i in range(n)])

    def waist(k):
        a = pool[k % 40]
        m = np.eye(4)
        m[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
        m[:3, 3] = np.array([pool[(k + i) % 40] for i in range(3)])
        return m
    dyn = types.SimpleNamespace(position=Sig('position'), velocity=Sig('velocity'), waist=Sig('waist'))
    dyn.signals = lambda: [dyn.position, dyn.velocity] + ([dyn.waist] if zmp else [])
    z = Sig('zmp')
    h = hi.History(dyn, freq, z if zmp else None)
    q, qd, zs = [], [], []
    for k in range(steps + 1):
        for s in (dyn.position, dyn.velocity, dyn.waist, z):
            s.time = k
        dyn.position.value, dyn.velocity.value, z.value = vec(k, 36), vec(k + 1, 36), vec(k + 2, 3)
        dyn.waist.value = waist(k).tolist()
        h.record()
        if k % freq == 0:
            q.append(dyn.position.value)
            qd.append(dyn.velocity.value)
            w = waist(k)
            zs.append(w[:3, :3].T @ (np.array(z.value) - w[:3, 3]))
    assert len(h.q) == len(q) == len(h.qdot), '%d samples instead of %d' % (len(h.q), len(q))
    for a, b in zip(h.q + h.qdot, q + qd):
        close(a, b, 0, 'sample')
    assert len(h.zmp) == (len(zs) if zmp else 0)
    for a, b in zip(h.zmp, zs):
        close(a[:3], b, 1e-9, 'ZMP in the frame of the waist')
    t = x % (steps + 1)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        h.restore(t)
    lines = out.getvalue().split('\n')
    k = t // freq
    assert [l for l in out.getvalue().replace('\n  ', '').split('robot.setVelocity')][0].find(str(q[k]).split()[0]) > 0, 'state'
    t0 = [l for l in lines if l.startswith('T0 =')]
    assert len(t0) == 1 and int(t0[0].split('=')[1]) == k * freq, 'the state of time %d is restored with %s' % (k * freq, t0)
    d = tempfile.mkdtemp(prefix='pbtpy')
    try:
        h.dumpToOpenHRP(os.path.join(d, 'b'))

        def table(ext):
            return np.array([[float(e) for e in l.split()] for l in open(os.path.join(d, 'b' + ext))])
        time = 0.005 * np.arange(len(q))
        close(table('.hip'), np.column_stack([time, [v[3:6] for v in q]]), 1e-12, 'hip')
        close(table('.waist'), np.column_stack([time, [v[:6] for v in q]]), 1e-12, 'waist')
        close(table('.pos'), np.column_stack([time, [v[6:36] for v in q], np.zeros((len(q), 10))]), 1e-12, 'pos')
        assert os.path.exists(os.path.join(d, 'b.zmp')) == bool(zmp)
        if zmp:
            close(table('.zmp'), np.column_stack([time, zs]), 1e-9, 'zmp')
        g = {}
        exec(open(os.path.join(d, 'b_pos0.py')).read(), g)
        p = [float(e) for e in g['dyninv_posinit'].split()]
        close(p, list(np.degrees(q[0][6:36])) + [0] * 10, 1e-9, 'initial posture')
    finally:
        shutil.rmtree(d)
    ctx.nontrivial(len(q) > 2 and freq > 1 and zmp)


class Steps:
    """the thread stops at each point until it is released"""

    def __init__(self):
        self.cv = threading.Condition()
        self.point, self.go, self.main = None, False, threading.current_thread()

    def at(self, p):
        if threading.current_thread() is self.main:
            return
        with self.cv:
            self.point = p
            self.cv.notify_all()
            while not self.go:
                self.cv.wait(5)
            self.go, self.point = False, None
            self.cv.notify_all()

    def release(self):
        with self.cv:
            self.go = True
            self.cv.notify_all()
            while self.go:
                self.cv.wait(0.5)

    def parked(self, thread):
        with self.cv:
            while self.point is None and thread.is_alive():
                self.cv.wait(0.01)
            return self.point


@prop(st.lists(st.sampled_from(['play', 'pause', 'once', 'quit', 'go', 'stop', 'next', 'inc', 'play2'] + ['step'] * 12), min_size=12,
               max_size=40))
def loop(ops, ctx):
    s = Steps()
    count = [0, 0]  # in the thread, in the caller

    def body():
        count[threading.current_thread() is s.main] += 1
        s.at('loop')

    class Runner(tl.loopInThread(body)):
        def run(self):
            s.at('begin')
            super().run()
            s.at('end')
    tl.time = types.SimpleNamespace(sleep=lambda dt: s.at('sleep'))
    r = Runner()
    go, stop, nxt, inc = tl.loopShortcuts(r)
    started = quit = play = once = False
    point, n, direct, dead = None, 0, 0, False
    changes = 0
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        try:
            for o in ops:
                if dead:
                    break
                if o in ('play', 'go', 'play2'):
                    if o == 'go':
                        go()
                    else:
                        r.play()
                    if o == 'play2':
                        r.play()
                    if not started:
                        started, quit, point = True, False, 'begin'
                    play, once = True, False
                elif o in ('pause', 'stop'):
                    (r.pause if o == 'pause' else stop)()
                    play = False
                elif o == 'once':
                    r.once()
                    play = once = True
                elif o == 'quit':
                    r.quit()
                    quit = True
                elif o == 'next':
                    nxt()
                    direct += 1
                elif o == 'inc':
                    inc + 3
                    direct += 3
                elif started:
                    s.parked(r)
                    s.release()
                    if point == 'loop' and once:
                        play = False
                    if point == 'loop':
                        point = 'sleep'
                    elif quit:
                        point = 'end'
                    elif play:
                        point, n = 'loop', n + 1
                    else:
                        point = 'sleep'
                    dead = point == 'end'
                changes += o in ('pause', 'once', 'quit') and started
                if started:
                    got = s.parked(r)
                    assert got == point, 'after %s the thread is at %s instead of %s' % (o, got, point)
                assert count == [n, direct], '%s executions instead of %s' % (count, [n, direct])
                assert r.iter == n - (point == 'loop'), 'counter %d after %d executions' % (r.iter, n)
        finally:
            r.isQuit = True
            k = 0
            while r.is_alive() and k < 50:
                if s.parked(r):
                    s.release()
                r.isQuit = True
                k += 1
            if started:
                r.join(1)
    ctx.nontrivial(n > 1 and changes > 1)


if __name__ == '__main__':
    sys.exit(main())
