"""C51: the python modules of the plugins and the scripts built on them work on the real entities."""
import importlib
import importlib.machinery
import importlib.util
import itertools
import os
import sys
import types

import numpy as np
import vpy
from vpy import close, prop, st

PATH = os.environ['VERIF_PYEXT']
count = itertools.count()
ALIVE = []          # nothing is destroyed: the graph keeps raw pointers


def compiled(init):
    ld = importlib.machinery.ExtensionFileLoader(init, PATH)
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location(init, PATH, loader=ld))
    ld.exec_module(m)
    return m


dg = compiled('dynamic_graph')


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Fresh(object):
    """names which are not used yet"""
    @staticmethod
    def name(c='e'):
        return '%s%d' % (c, next(count))


def with_commands(m):
    """dynamic-graph-python gives every class its commands as methods"""
    for k in classes(m):
        e = getattr(m, k)(Fresh.name('dummy'))
        ALIVE.append(e)
        for n in e.commands():
            setattr(getattr(m, k), n, (lambda n: lambda self, *a: self.call(n, *a))(n))
    return m


def classes(m):
    return [k for k, c in vars(m).items() if isinstance(c, type) and issubclass(c, dg.Entity)]


PLUGINS = {}        # library: its module
for cmake in vpy.REPO + '/src/CMakeLists.txt',:
    text = open(cmake).read()
    listed = text[text.index('set(plugins'):]
    listed = listed[:listed.index(')')].split()[1:]
    for p in listed:
        base = p.split('/')[-1].replace('-', '_')
        if base not in ('operator', 'switch', 'integrator_euler'):
            PLUGINS[base] = with_commands(compiled('wrap_' + base))
PLUGINS['operator'], PLUGINS['switch'] = compiled('wrap_operator'), compiled('wrap_switch')
CORE = compiled('wrap_core')
mods = {'dynamic_graph.entity': module('dynamic_graph.entity', Entity=dg.Entity),
        'dynamic_graph.signal_base': module('dynamic_graph.signal_base', SignalBase=dg.SignalBase)}
mods.update({'dynamic_graph.sot.core.' + k: m for k, m in PLUGINS.items()})
sys.modules.pop('dynamic_graph')     # the compiled part of the package; the rest is in the repository
core = vpy.package(mods)
import dynamic_graph  # noqa
dynamic_graph.plug = dg.plug
core.Flags, core.Device = CORE.Flags, CORE.Device
Flags = CORE.Flags
PK = 'dynamic_graph.sot.core.'
SCRIPTS = sorted(f[:-3] for f in os.listdir(vpy.REPO + '/src/dynamic_graph/sot/core') if f.endswith('.py') and f != '__init__.py')
from dynamic_graph.sot.core import feature_position, feature_position_relative, meta_task_posture, meta_task_visual_point  # noqa
from dynamic_graph.sot.core import meta_tasks, meta_tasks_kine, meta_tasks_kine_relative  # noqa
from dynamic_graph.sot.core.matrix_util import rpy2tr  # noqa

num = st.one_of(st.floats(-3, 3), st.integers(-3, 3))
v3, v6 = st.lists(num, min_size=3, max_size=3), st.lists(num, min_size=6, max_size=6)


def homo(v):
    m = np.array(rpy2tr(*v[3:]), float)
    m[:3, 3] = v[:3]
    return m


class Robot(dg.Provider):
    def __init__(self, n=7):
        dg.Provider.__init__(self, Fresh.name('robot'))
        ALIVE.append(self)
        self.nq, self.asked = n, []
        for s in ('position', 'com'):
            self.make('vector', s)
        self.make('matrix', 'Jcom')
        self.position.value = [0.] * n

    def point(self, op):
        self.make('homo', op)
        self.make('matrix', 'J' + op)

    def createOpPoint(self, op, ref):
        self.asked.append((op, ref))
        self.point(op)


class Clock(object):
    t = 0

    @classmethod
    def next(cls):
        cls.t += 1
        return cls.t


def at(s):
    return np.array(s.at(Clock.t), float)


# ---------------------------------------------------------------- what is offered
@prop(st.sampled_from(sorted(PLUGINS)), cap=500)
def modules_offer_their_entities(p, ctx):
    known = {k for m in PLUGINS.values() for k in classes(m)} | {'Provider', 'Device'}
    missing = sorted(set(dg.registered()) - known)
    assert not missing, 'classes which no python module offers: %s' % missing
    if p in ('operator', 'switch'):
        assert classes(PLUGINS[p])
        return
    for k in classes(PLUGINS[p]):
        n = Fresh.name('e')
        e = getattr(PLUGINS[p], k)(n)
        ALIVE.append(e)
        assert k in dg.registered(), '%s is not a class of the factory' % k
        assert e.className == k and e.name == n, 'class %s, name %s instead of %s %s' % (e.className, e.name, k, n)
        names = [s.name for s in e.signals()]
        assert len(set(names)) == len(names) and '' not in names
        both = (set(names) & set(e.commands())) | ((set(names) | set(e.commands())) & set(dir(dg.Entity)))
        assert not both, '%s: %s hidden by another attribute' % (k, sorted(both))
        for s in e.signals():
            full = s.getName()
            assert full.split(':')[-1] == s.name and '(%s)' % n in full, 'signal %s of %s' % (full, n)
            assert getattr(e, s.name).address == s.address
        try:
            getattr(PLUGINS[p], k)(n)
        except Exception:
            pass
        else:
            assert False, 'two entities %s' % n
    ctx.nontrivial(classes(PLUGINS[p]))


@prop(st.sampled_from(SCRIPTS), cap=100)
def scripts_are_importable(s, ctx):
    sys.modules.pop(PK + s, None)
    m = importlib.import_module(PK + s)
    if s == 'math_small_entities':
        ks = classes(m)
        assert len(ks) > 50, 'only %d classes' % len(ks)
        for k in ks:
            e = getattr(m, k)(Fresh.name('m'))
            ALIVE.append(e)
            assert e.className == k
    ctx.nontrivial()


# ---------------------------------------------------------------- tasks
def select(bits, m):
    return np.asarray(m)[[i for i, b in enumerate(bits) if b]]


def logmap(R):
    """rotation vector"""
    c = np.clip((np.trace(R) - 1) / 2, -1, 1)
    a = np.arccos(c)
    w = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    n = np.linalg.norm(w)
    return w / 2 if n < 1e-9 else w / n * np.arctan2(n / 2, c), a


def cross(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def moved(T, J, M, end_effector):
    """position and Jacobian of a point moved by M"""
    if end_effector:
        i = np.linalg.inv(M)
        X = np.zeros((6, 6))
        X[:3, :3] = X[3:, 3:] = i[:3, :3]
        X[:3, 3:] = cross(i[:3, 3]) @ i[:3, :3]
        return T @ M, X @ J
    o = T[:3, :3] @ M[:3, 3]
    J = J.copy()
    J[:3] -= cross(o) @ J[3:]
    return T @ M, J


class Twin(object):
    """the same feature fed with numbers, without operational point, modifier or task"""
    def __init__(self, kind):
        mk = {'6d': lambda n: PLUGINS['feature_point6d'].FeaturePoint6d(n),
              'rel': lambda n: PLUGINS['feature_point6d_relative'].FeaturePoint6dRelative(n),
              'visual': lambda n: PLUGINS['feature_visual_point'].FeatureVisualPoint(n)}[kind]
        self.f, self.r = mk(Fresh.name('twin')), mk(Fresh.name('twinref'))
        self.g = PLUGINS['gain_adaptive'].GainAdaptive(Fresh.name('twingain'))
        self.g.set(0.1, 0.1, 125e3)
        self.f.setReference(self.r.name)
        if kind != 'visual':
            self.f.frame('current')
        ALIVE.extend([self.f, self.r, self.g])


GAIN = st.one_of(st.none(), st.floats(0, 5), st.lists(st.floats(0, 5), min_size=1, max_size=1), st.lists(st.floats(0.1, 5), min_size=3, max_size=3),
                 st.tuples(st.floats(2, 5), st.floats(0.1, 1), st.floats(0.1, 1), st.floats(0.1, 0.9)).map(list))


def set_gain(g, x):
    if x is None:
        return
    if not isinstance(x, list):
        g.setConstant(x)
    elif len(x) == 1:
        g.setConstant(x[0])
    elif len(x) == 3:
        g.set(*x)
    else:
        g.setByPoint(*x)


SELEC = st.sampled_from([None, '111111', '000111', '110100', '011011', '101', '1'])
OPS = st.lists(st.tuples(st.sampled_from(['modif', 'modif', 'plain', 'modifBase', 'plainBase', 'ref', 'keep', 'goto', 'gotoNd', 'selec', 'gain', 'ee',
                                          'move', 'move', 'moveBase']), v6, GAIN, SELEC, st.booleans()), min_size=1, max_size=8)
JAC = st.lists(num, min_size=14, max_size=14)


def jacobian(x, k):
    """a Jacobian with the given numbers in it, without structure"""
    x = np.array(x, float)
    return np.array([[x[(i * 5 + j * 3 + k) % 14] + ((i * 7 + j * 11 + 3 * k) % 13 - 6) / 4. for j in range(7)] for i in range(6)])


def lst(m):
    return np.asarray(m).tolist()


@prop(st.tuples(st.sampled_from(['6d', 'rel', 'visual']), st.booleans(), v6, v6, JAC, v6, OPS))
def tasks_follow_their_point(c, ctx):
    kind, exist, p0, p1, jx, ref0, ops = c
    rel, vis = kind == 'rel', kind == 'visual'
    d = Robot()
    if exist:
        d.point('op')
    mk = {'6d': meta_tasks_kine.MetaTaskKine6d, 'rel': meta_tasks_kine_relative.MetaTaskKine6dRel,
          'visual': meta_task_visual_point.MetaTaskVisualPoint}[kind]
    n = Fresh.name('t')
    t = mk(n, d, 'op', 'base', 'ra', 'la') if rel else mk(n, d, 'op', 'ra')
    ALIVE.append(t)
    assert d.asked == ([] if exist else [('op', 'ra')]) + ([('base', 'la')] if rel else []), 'operational points made: %s' % d.asked
    # what the robot says, what the user wants
    pos = {'': homo(p0), 'Base': homo(p1)}
    if vis:
        pos[''] = np.eye(4)
        pos[''][:3, 3] = np.array(p0[:3]) / 4
    J = {'': jacobian(jx, 0), 'Base': jacobian(jx, 1)}
    mod = {'': None, 'Base': None}
    last = {'': np.eye(4), 'Base': np.eye(4)}
    ee = {'': True, 'Base': True}
    want = {'': homo(ref0), 'Base': homo(ref0[::-1])}
    xy, target = np.array(ref0[:2], float), np.array([ref0[0] / 2, ref0[1] / 2, 4.])
    bits = [True] * (2 if vis else 6)
    w = Twin(kind)
    d.signal('op').value, d.signal('Jop').value = lst(pos['']), lst(J[''])
    if rel:
        d.signal('base').value, d.signal('Jbase').value = lst(pos['Base']), lst(J['Base'])
        t.featureDes.positionRef.value = lst(want['Base'])
    if vis:
        t.ref, t.target = xy, target
    else:
        t.ref = want['']
    sot = PLUGINS['sot'].SOT(Fresh.name('sot'))
    ALIVE.append(sot)
    sot.setSize(7)
    sot.push(t.task.name)
    values = changes = 0
    for op, v, g, sel, flag in [('start', None, None, None, None)] + ops:
        b = 'Base' if op.endswith('Base') else ''
        if b and not rel:
            continue
        if op.startswith('modif'):
            mod[b] = last[b] = homo(v)
            if vis:
                mod[b] = last[b] = np.array(np.vstack([np.hstack([np.eye(3), [[e / 4] for e in v[:3]]]), [0, 0, 0, 1]]))
            setattr(t, 'opmodif' + b, mod[b])
            close(getattr(t, 'opmodif' + b), mod[b], 0, 'modification')
            changes += 1
        elif op.startswith('plain'):
            setattr(t, 'opmodif' + b, False)
            assert getattr(t, 'opmodif' + b) is False
            mod[b] = None
            changes += 1
        elif op.startswith('move'):
            pos[b] = homo(v)
            if vis:
                pos[b] = np.eye(4)
                pos[b][:3, 3] = np.array(v[:3]) / 4
            J[b] = jacobian(v * 2 + v[:2], len(v))
            d.signal('base' if b else 'op').value = lst(pos[b])
            d.signal('Jbase' if b else 'Jop').value = lst(J[b])
        elif op == 'ee':
            ee[''] = flag
            t.opPointModif.setEndEffector(flag)
            if rel:
                ee['Base'] = not flag
                t.opPointModifBase.setEndEffector(not flag)
        elif op == 'ref':
            if vis:
                xy = np.array(v[:2], float)
                t.ref = xy
                close(t.ref, xy, 0, 'reference')
            else:
                want[''] = homo(v)
                t.ref = want['']
                close(t.ref, want[''], 0, 'reference')
        elif op == 'gain':
            meta_tasks.setGain(t.gain, g)
            set_gain(w.g, g)
        elif op == 'selec' and sel:
            bits = [i < len(sel) and sel[i] == '1' for i in range(len(bits))]
            if any(bits):
                t.feature.selec.value = Flags([bool(x) for x in bits])
            else:
                continue
        elif op == 'keep' and not vis:
            # the reference becomes the position computed at the time of the robot
            Clock.next()
            d.position.value = [float(Clock.t)] * 7
            d.position.at(Clock.t)
            t.keep()
            want[''] = pos[''] @ mod[''] if mod[''] is not None else pos['']
            close(t.ref, want[''], 1e-12, 'reference after keep')
        elif op in ('goto', 'gotoNd'):
            s = sel
            if s is not None:
                bits = [i < len(s) and s[i] == '1' for i in range(len(bits))]
                s = Flags([bool(x) for x in bits]) if flag or len(s) < len(bits) else s[:len(bits)]
            if vis:
                target = np.array([v[0] / 2, v[1] / 2, 4.])
                if flag:
                    xy = np.array(v[3:5], float)
                t.goto3D(target, g, ref2D=xy if flag else None, selec=s)
            else:
                want[''], q = homo(v), tuple(x / 2 for x in v)
                if rel:
                    want['Base'] = homo(q)
                if op == 'goto':
                    bits = [True] * 6
                if op == 'goto' and rel:
                    meta_tasks_kine_relative.goto6dRel(t, tuple(v), q, g)
                elif op == 'goto':
                    meta_tasks.goto6d(t, tuple(v), g)
                elif rel:
                    meta_tasks_kine_relative.gotoNdRel(t, tuple(v), q, s, g)
                else:
                    meta_tasks.gotoNd(t, tuple(v), s, g)
            set_gain(w.g, g)
        if not any(bits):
            bits = [True] * len(bits)
            t.feature.selec.value = Flags(bits)
        now = Clock.next()
        # the robot publishes its signals at every step
        d.signal('op').value = lst(pos[''])
        if rel:
            d.signal('base').value = lst(pos['Base'])
        here = {}
        for k in ('', 'Base'):
            if mod[k] is None:
                here[k] = pos[k], J[k]
            else:
                here[k] = moved(pos[k], J[k], mod[k], ee[k])
        w.f.selec.value = Flags(bits)
        if vis:
            p = np.linalg.inv(here[''][0]) @ np.append(target, 1)
            if p[2] < 0.5:
                continue
            seen = p[:2] / p[2]
            w.f.xy.value, w.f.Z.value, w.f.Jq.value, w.r.xy.value = lst(seen), float(p[2]), lst(here[''][1]), lst(xy)
            error = select(bits, seen - xy)
        else:
            w.f.position.value, w.f.Jq.value, w.r.position.value = lst(here[''][0]), lst(here[''][1]), lst(want[''])
            if rel:
                w.f.positionRef.value, w.f.JqRef.value, w.r.positionRef.value = lst(here['Base'][0]), lst(here['Base'][1]), lst(want['Base'])
                error = None
            else:
                h = np.linalg.inv(here[''][0]) @ want['']
                r, a = logmap(h[:3, :3])
                if a > 3:
                    continue            # the rotation vector is not unique
                error = select(bits, np.concatenate([h[:3, 3], r]))
        big = 1e-7 * (1 + np.abs(here[''][1]).max() + np.abs(here['Base'][1]).max())
        e = at(t.task.error)
        if rel:
            h = [np.linalg.inv(x) @ y for x, y in ((here['Base'][0], here[''][0]), (want['Base'], want['']))]
            if logmap((np.linalg.inv(h[0]) @ h[1])[:3, :3])[1] > 3:
                continue
        w_e, w_J = at(w.f.error), at(w.f.jacobian)
        if error is not None:
            close(e, error, 1e-6, 'error of the task')
        close(e, w_e, 1e-6, 'error of the task, next to the feature alone')
        Jt = at(t.task.jacobian)
        close(Jt, w_J, big * 10, 'Jacobian of the task')
        w.g.error.value = lst(e)
        gain = float(w.g.gain.at(now))
        close(float(t.gain.gain.at(now)), gain, 1e-9 * (1 + abs(gain)), 'gain')
        close(float(t.task.controlGain.at(now)), gain, 1e-9 * (1 + abs(gain)), 'gain of the task')
        s = np.linalg.svd(Jt, compute_uv=False)
        if s[-1] > 0.05 and s[0] < 100:
            # what the stack of tasks sends to the robot
            u = at(sot.control)
            rhs = -gain * e
            close(Jt @ u, rhs, 1e-6 * (1 + np.abs(rhs).max()), 'velocity of the task')
            close(u, np.linalg.pinv(Jt) @ rhs, 1e-6 * (1 + np.abs(u).max()), 'control')
            values += 1
    ctx.nontrivial(values > 2 and changes)


# ---------------------------------------------------------------- center of mass and posture
@prop(st.tuples(st.lists(st.tuples(st.sampled_from(['ref', 'move', 'gain', 'selec']), v3, GAIN, st.sampled_from(['111', '011', '1', '001'])), min_size=1,
                         max_size=6), v3, v3, JAC))
def com_and_gain(c, ctx):
    ops, com, ref, jx = c
    d = Robot()
    J = jacobian(jx, 2)[:3]
    t = meta_tasks_kine.MetaTaskKineCom(d, Fresh.name('com'))
    g = PLUGINS['gain_adaptive'].GainAdaptive(Fresh.name('twingain'))
    ALIVE.extend([t, g])
    d.com.value, d.Jcom.value = com, lst(J)
    t.ref = ref
    bits, given = [True] * 3, False
    for op, v, x, sel in ops:
        if op == 'ref':
            ref = v
            t.ref = v
        elif op == 'move':
            com = v
            d.com.value = v
        elif op == 'gain':
            meta_tasks.setGain(t.gain, x)
            set_gain(g, x)
            given = given or x is not None
        else:
            bits = [i < len(sel) and sel[i] == '1' for i in range(3)]
            t.feature.selec.value = Flags(sel)
        now = Clock.next()
        d.com.value = com
        e = select(bits, np.array(com, float) - np.array(ref, float))
        close(at(t.task.error), e, 1e-12, 'error')
        close(at(t.task.jacobian), select(bits, J), 0, 'Jacobian')
        close(t.ref, ref, 0, 'reference')
        if given:
            g.error.value = lst(e)
            close(float(t.task.controlGain.at(now)), float(g.gain.at(now)), 1e-9, 'gain')
    ctx.nontrivial(given and len(ops) > 2)


R = meta_task_posture.MetaTaskPosture.postureRange


@prop(st.tuples(st.sampled_from([36, 38]), st.lists(st.tuples(st.sampled_from(['goto', 'goto', 'move', 'ref']), st.lists(st.sampled_from(sorted(R)),
                max_size=3, unique=True), st.booleans(), GAIN, st.lists(num, min_size=38, max_size=38)), min_size=1, max_size=5)))
def posture(c, ctx):
    n, ops = c
    d = Robot(n)
    t = meta_task_posture.MetaTaskKinePosture(d, Fresh.name('posture'))
    g = PLUGINS['gain_adaptive'].GainAdaptive(Fresh.name('twingain'))
    ALIVE.extend([t, g])
    Clock.next()
    d.position.at(Clock.t)
    q, ref, act = np.zeros(n), np.zeros(n), [True] * n
    t.ref = ref.tolist()
    given, some = False, 0
    for op, limbs, whole, x, v in ops:
        v = np.array(v[:n], float)
        if op == 'move':
            q = v
            d.position.value = lst(q)
        elif op == 'ref':
            ref = v
            t.ref = v.tolist()
        else:
            t.feature.errorIN.recompute(Clock.t)
            ref = v.copy() if whole else np.zeros(n)
            act = [False] * n
            kw = {}
            for l in limbs:
                kw[l] = [float(v[i]) / 2 for i in R[l]]
                for i, a in zip(R[l], kw[l]):
                    ref[i], act[i] = a, True
            t.gotoq(x, v.tolist() if whole else None, **kw)
            set_gain(g, x)
            given = given or x is not None
        if not any(act):
            act = [True] * n
            t.feature.selec.value = Flags(act)
        now = Clock.next()
        d.position.value = lst(q)
        e = select(act, q - ref)
        close(at(t.task.error), e, 1e-12, 'error')
        close(at(t.task.jacobian), select(act, np.eye(n)), 0, 'Jacobian')
        if given:
            g.error.value = lst(e)
            close(float(t.task.controlGain.at(now)), float(g.gain.at(now)), 1e-9, 'gain')
        some += not all(act)
    ctx.nontrivial(some > 1)


# ---------------------------------------------------------------- features
@prop(st.tuples(st.booleans(), st.lists(st.sampled_from(['none', 'tuple', 'signal']), min_size=4, max_size=4), st.lists(v6, min_size=4, max_size=4), JAC,
                st.lists(st.tuples(st.sampled_from(['move', 'selec', 'keep', 'ref', 'frame']), st.integers(0, 3), v6, SELEC), max_size=5)))
def features_of_python(c, ctx):
    rel, forms, vs, jx, ops = c
    d = Robot()
    M = [homo(v) for v in vs]
    J = [jacobian(jx, 0), jacobian(jx, 1)]
    for k in range(4):
        d.point('op%d' % k)
        d.signal('op%d' % k).value = lst(M[k])
    for k in range(2):
        d.signal('Jop%d' % k).value = lst(J[k])
    n = Fresh.name('f')
    if rel:
        a = [None if f == 'none' else d.signal('op%d' % k) if f == 'signal' else tuple(tuple(r) for r in M[k].tolist()) for k, f in enumerate(forms)]
        M = [np.eye(4) if f == 'none' else m for f, m in zip(forms, M)]
        f = feature_position_relative.FeaturePositionRelative(n, a[0], a[1], a[2], a[3], d.signal('Jop0'), d.signal('Jop1'))
        sig = [f.basePosition, f.otherPosition, f.baseReference, f.otherReference]
        w = Twin('rel')
    else:
        f = feature_position.FeaturePosition(n, d.signal('op0'), d.signal('Jop0'), tuple(tuple(r) for r in M[1].tolist()))
        forms = ['signal', 'tuple']
        sig = [f.position, f.reference]
        w = Twin('6d')
    ALIVE.append(f)
    assert f.name == n
    bits, frame = [True] * 6, 'current'
    moves = 0
    for op, k, v, sel in [('start', 0, None, None)] + ops:
        k = k % len(sig)
        if op == 'move':
            M[k] = homo(v)
            if forms[k] == 'signal':
                d.signal('op%d' % k).value = lst(M[k])
            else:
                sig[k].value = lst(M[k])
            moves += 1
        elif op == 'selec' and sel:
            bits = [i < len(sel) and sel[i] == '1' for i in range(6)]
            f.selec.value = Flags([bool(x) for x in bits])
        elif op == 'frame' and not rel:
            frame = 'desired' if frame == 'current' else 'current'
            f.frame(frame)
            assert f.getFrame() == frame, 'frame %s instead of %s' % (f.getFrame(), frame)
        elif op == 'keep' and not rel:
            f.position.recompute(Clock.next())
            f.keep()
            M[1] = M[0]
        elif op == 'keep' and forms[3] != 'signal':
            f.otherPosition.recompute(Clock.next())
            f.keep()
            M[3] = M[1]
        now = Clock.next()
        w.f.selec.value = Flags(bits)
        if rel:
            w.f.positionRef.value, w.f.position.value, w.r.positionRef.value, w.r.position.value = [lst(m) for m in M]
            w.f.JqRef.value, w.f.Jq.value = [lst(j) for j in J]
            h = np.linalg.inv(np.linalg.inv(M[0]) @ M[1]) @ np.linalg.inv(M[2]) @ M[3]
        else:
            w.f.position.value, w.r.position.value, w.f.Jq.value = lst(M[0]), lst(M[1]), lst(J[0])
            w.f.frame(frame)
            h = np.linalg.inv(M[0]) @ M[1]
        if logmap(h[:3, :3])[1] > 3:
            continue
        close(at(f.error), at(w.f.error), 1e-6, 'error')
        if not rel:
            x = h if frame == 'current' else np.linalg.inv(h)
            close(at(f.error), select(bits, np.concatenate([x[:3, 3], logmap(x[:3, :3])[0]])), 1e-6, 'error')
        close(at(f.jacobian if rel else f._feature.jacobian), at(w.f.jacobian), 1e-5, 'Jacobian')
    ctx.nontrivial(moves > 1)


if __name__ == '__main__':
    sys.exit(vpy.main())
