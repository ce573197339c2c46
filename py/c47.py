"""C47: display of the robot in a viewer."""
import contextlib
import io
import sys
import types

import numpy as np

from vpy import main, package, prop, st

package()
import dynamic_graph.sot.core.utils.viewer_helper as vh  # noqa
import dynamic_graph.sot.core.utils.viewer_loger as vl  # noqa

num = st.floats(-100, 100, allow_nan=False)


class Viewer:
    def __init__(self, log, down=None):
        self.log, self.down = log, down or [False]

    def updateElementConfig(self, name, state):
        if self.down[0]:
            raise IOError('no connection')
        self.log.append((name, list(state)))


class Sig:
    def __init__(self, value, time=0):
        self.value, self.time = value, time


def robot_class():
    class Robot:
        def __init__(self, name, state, form):
            self.name, self.form, self.calls = name, form, []
            self.state = Sig(None)
            self.put(state)

        def put(self, v):
            self.state.value = {'tuple': tuple, 'list': list, 'array': np.array}[self.form](v)

        def increment(self, dt):
            self.calls.append(dt)
            self.state.time += 1
            self.put([x + dt for x in self.state.value])

        def set(self, *a):
            self.calls.append(a)
            self.put(a[0])

    return Robot


@contextlib.contextmanager
def library(viewer):
    """robotviewer is installed (or not)"""
    sys.modules.pop('robotviewer', None)
    if viewer is not None:
        m = types.ModuleType('robotviewer')
        m.client = viewer
        sys.modules['robotviewer'] = m
    else:
        sys.modules['robotviewer'] = None  # import fails
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.modules.pop('robotviewer', None)


op = st.tuples(st.sampled_from(['inc', 'inc', 'set', 'refresh', 'display', 'again', 'down', 'up']), num, st.lists(num, min_size=1, max_size=4))


@prop(st.tuples(st.lists(st.tuples(st.sampled_from(['robot', 'robot_device', 'hrp', 'romeo', '']), st.lists(num, min_size=1, max_size=8),
                                   st.sampled_from(['tuple', 'list', 'array'])), min_size=1, max_size=3),
                st.booleans(), st.none() | st.integers(0, 12), st.sampled_from([None, 'CORBA', 'XML-RPC']), st.booleans(), st.booleans(),
                st.lists(st.tuples(st.integers(0, 2), op), max_size=10)))
def robots(case, ctx):
    descr, small, extra, server, installed, at_once, ops = case
    Robot = robot_class()
    log, servers, down = [], [], [False]
    rs = [Robot(*d) for d in descr]
    states = [list(d[1]) for d in descr]
    shows, counts = [[] for _ in rs], [[] for _ in rs]
    opts = {'small': small, 'dorefresh': at_once}
    if extra is not None:
        opts['small_extra'] = extra
    if server:
        opts['server'] = server

    def client(s):
        servers.append(s)
        return Viewer(log, down)

    tail = [0.] * ((10 if extra is None else extra) if small else 0)

    def check(i, what, n=1):
        name = 'hrp' if descr[i][0] in ('robot', 'robot_device') else descr[i][0]
        # a viewer that is not there shows nothing
        want = [] if down[0] or faked[i] else [(name, states[i] + tail)] * n
        assert log == want, '%s: the viewer is told %s instead of %s' % (what, log, want)
        k = 0 if down[0] and not faked[i] else n
        for c in counts[i]:
            assert c[0] == k, '%s: a display function is called %d times instead of %d' % (what, c[0], k)
        del log[:]
        for c in counts[i]:
            c[0] = 0

    def install(i):
        with library(client if installed else None):
            vh.addRobotViewer(rs[i], **opts)
        counts[i] = []
        faked[i] = not installed or (at_once and down[0])
        if installed:
            assert servers == [server or 'XML-RPC'], 'servers %s' % servers
            del servers[:]
        assert rs[i].viewer is not None
        if not installed:
            del log[:]
        elif at_once:
            check(i, 'installation')
        else:
            assert log == [], 'shown at once: %s' % log

    faked = [False] * len(rs)
    for i in range(len(rs)):
        install(i)
    steps = 0
    for i, (o, x, v) in ops:
        i %= len(rs)
        r = rs[i]
        broken = down[0] and not faked[i]
        if o == 'down' or o == 'up':
            down[0] = o == 'down'
            continue
        if o == 'again':
            install(i)
            continue
        if not installed:
            # the robot works as before
            if o == 'inc':
                r.increment(x)
                assert r.calls[-1] == x
            if o == 'set':
                r.set(tuple(v))
            continue
        if o == 'display':
            c = [0]
            counts[i].append(c)

            def f(c=c):
                c[0] += 1

            r.displayList.append(f)
            continue
        n = len(r.calls)
        try:
            if o == 'inc':
                states[i] = [s + x for s in states[i]]
                r.increment(x)
            elif o == 'set':
                states[i] = list(v)
                r.set(tuple(v), 'extra')
            else:
                r.refresh()
            assert not broken, 'the loss of the viewer is silent'
        except IOError:
            assert broken
        if o == 'inc':
            assert r.calls[n:] == [x], 'increment by %s runs %s' % (x, r.calls[n:])
        if o == 'set':
            assert r.calls[n:] == [(tuple(v), 'extra')], 'set runs %s' % (r.calls[n:],)
        check(i, o)
        steps += 1
    ctx.nontrivial(installed and steps > 2)


@prop(st.tuples(st.integers(0, 6), st.lists(st.tuples(st.integers(-1, 3), st.lists(num, min_size=3, max_size=3), st.booleans()), max_size=5)))
def marks(case, ctx):
    pings, coms = case
    log = []
    v = Viewer(log)
    p = vh.VisualPinger(v)
    for _ in range(pings):
        p()
    want = [('pong', [0, 0.9, k * 0.1, 0, 0, 0]) for k in range(1, pings + 2)]
    assert log == want, '%s instead of %s' % (log, want)
    del log[:]
    r = types.SimpleNamespace(viewer=v)
    want = []
    for t, c, named in coms:
        s = Sig(np.array(c) if named else tuple(c), t)
        if named:
            vh.updateComDisplay(r, s, 'mass')
        else:
            vh.updateComDisplay(r, s)
        if t > 0:
            want.append(('mass' if named else 'com', [c[0], c[1], 0, 0, 0, 0]))
    assert log == want, '%s instead of %s' % (log, want)
    ctx.nontrivial(pings and len(want) > 1)


class Files:
    """stands for the files in /tmp"""

    def __init__(self, old):
        self.content = dict.fromkeys(old, 'old')
        self.opened = []

    def open(self, name, mode='r'):
        fs = self
        assert mode == 'w', mode
        self.opened.append(name)
        self.content[name] = ''

        class F:
            def write(self, s):
                fs.content[name] += s

            def flush(self):
                pass

            def close(self):
                pass

        return F()

    def glob(self, pattern):
        import fnmatch
        return [f for f in self.content if fnmatch.fnmatch(f, pattern)]

    def remove(self, f):
        del self.content[f]


@prop(st.tuples(st.lists(st.sampled_from(['/tmp/view_a.dat', '/tmp/view_hrp.dat', '/tmp/view.txt', '/tmp/other.dat', '/tmp/views.dat']), unique=True),
                st.lists(st.tuples(st.one_of(st.integers(0, 5), st.integers(400, 3000)), st.sampled_from(['hrp', 'com', 'pong', 'a b']),
                                   st.lists(num | st.integers(-5, 5), max_size=6), st.sampled_from(['tuple', 'list', 'array'])), max_size=10)))
def logger(case, ctx):
    old, ups = case
    fs = Files(old)
    vl.open = fs.open
    vl.glob = types.SimpleNamespace(glob=fs.glob)
    vl.os = types.SimpleNamespace(remove=fs.remove)
    shown = []
    robot = types.SimpleNamespace(state=Sig(None), viewer=Viewer(shown))
    lg = vl.ViewerLoger(robot)
    kept = {f: 'old' for f in old if not f.startswith('/tmp/view') or not f.endswith('.dat')}
    assert fs.content == kept, 'left after the creation: %s' % fs.content
    want, rows, t = [], {}, 0
    for dt, name, state, form in ups:
        t += dt
        robot.state.time = t
        s = {'tuple': tuple, 'list': list, 'array': np.array}[form](state)
        lg.updateElementConfig(name, s)
        want.append((name, list(s)))
        rows.setdefault(name, []).append([float(t)] + [float(x) for x in state])
    assert shown == want, 'the viewer is told %s instead of %s' % (shown, want)
    files = {f: c for f, c in fs.content.items() if f not in kept}
    assert sorted(files) == sorted('/tmp/view_%s.dat' % n for n in rows), 'files %s' % sorted(files)
    for n in rows:
        got = files['/tmp/view_%s.dat' % n]
        assert not got or got.endswith('\n')
        got = [[float(x) for x in l.split('\t')] for l in got.split('\n')[:-1]]
        assert got == rows[n], '%s: %s instead of %s' % (n, got, rows[n])
    ctx.nontrivial(len(rows) > 1 and len(ups) > 3)


if __name__ == '__main__':
    sys.exit(main())
