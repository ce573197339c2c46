"""C45: tasks and features built in python."""
import sys

import numpy as np

import fakes
from fakes import Dyn, Entity, Flags, TaskPD, plug
from vpy import close, main, package, prop, st

core = package(fakes.modules())
import dynamic_graph  # noqa
dynamic_graph.plug = plug
core.Flags = Flags
from dynamic_graph.sot.core import feature_position, feature_position_relative, meta_task_posture, meta_task_visual_point  # noqa
from dynamic_graph.sot.core import meta_tasks, meta_tasks_kine, meta_tasks_kine_relative  # noqa
from dynamic_graph.sot.core.matrix_util import matrixToTuple, rpy2tr  # noqa

num = st.one_of(st.floats(-10, 10), st.integers(-3, 3))
v3, v6 = st.lists(num, min_size=3, max_size=3), st.lists(num, min_size=6, max_size=6)


def homo(v):
    m = np.array(rpy2tr(*v[3:]), float)
    m[:3, 3] = v[:3]
    return m


# a position in each of the accepted forms: (value given, matrix expected)
def position(form, v):
    m, t = homo(v), np.eye(4)
    t[:3, 3] = v[:3]
    return {'tuple3': lambda: (tuple(v[:3]), t), 'array3': lambda: (np.array(v[:3]), t), 'row3': lambda: (np.matrix(v[:3]), t),
            'column3': lambda: (np.matrix(v[:3]).T, t), 'tuple4': lambda: (matrixToTuple(m), m), 'array4': lambda: (m, m),
            'matrix4': lambda: (np.matrix(m), m), 'tuple6': lambda: (tuple(v), m), 'array6': lambda: (np.array(v), m)}[form]()


FORMS = ['tuple3', 'array3', 'row3', 'column3', 'tuple4', 'array4', 'matrix4', 'tuple6', 'array6']
pos = st.tuples(st.sampled_from(FORMS), v6)
gain = st.one_of(st.none(), num, st.lists(num, min_size=1, max_size=1), st.lists(num, min_size=3, max_size=4), st.lists(num, min_size=3, max_size=4).map(lambda x: {'t': x}))


def as_gain(x):
    return tuple(x['t']) if isinstance(x, dict) else x


def check_gain(g, x, before):
    x = as_gain(x)
    new = g.log[before:]
    if x is None:
        assert new == [], 'gain changed to %s without being given' % new
        return
    if not isinstance(x, (list, tuple)):
        want = ('setConstant', x)
    else:
        want = ({1: 'setConstant', 3: 'set', 4: 'setByPoint'}[len(x)],) + tuple(x)
    assert new == [want], 'gain %s instead of %s' % (new, want)


def loop(t):
    assert t.gain.error.source is t.task.error and t.task.controlGain.source is t.gain.gain, 'gain loop'
    assert t.task.log.count(('add', t.feature.name)) == 1, 'feature in the task'
    assert t.feature.log.count(('setReference', t.featureDes.name)) == 1, 'reference of the feature'


@prop(st.tuples(st.sampled_from(FORMS), v6))
def reference6d(c, ctx):
    p, want = position(*c)
    close(meta_tasks.generic6dReference(p), want, 1e-12, 'reference given as ' + c[0])
    ctx.nontrivial(any(c[1][:3]) and any(c[1][3:]))


OPS = st.lists(st.tuples(st.sampled_from(['modif', 'modif', 'plain', 'modifBase', 'plainBase', 'ref', 'keep', 'goto', 'gotoNd']), v6,
                         st.sampled_from(FORMS), gain, st.sampled_from([None, '111111', '000111', '110100', 'F011011']), st.booleans()), min_size=0,
               max_size=8)


@prop(st.tuples(st.sampled_from(['6d', 'rel', 'visual']), st.booleans(), st.booleans(), st.booleans(), OPS))
def task6d(c, ctx):
    kind, exist, existBase, pd, ops = c
    Entity.all.clear()
    d = Dyn('dyn')
    if exist:
        d.add('op')
    if existBase:
        d.add('base')
    mod = {'6d': meta_tasks_kine.MetaTaskKine6d, 'rel': meta_tasks_kine_relative.MetaTaskKine6dRel,
           'visual': meta_task_visual_point.MetaTaskVisualPoint}[kind]
    rel, vis = kind == 'rel', kind == 'visual'
    cls = type('T', (mod,), {'createTask': lambda self: setattr(self, 'task', TaskPD('task' + self.name))}) if pd else mod
    t = cls('t', d, 'op', 'base', 'ra', 'la') if rel else cls('t', d, 'op', 'ra')
    made = [] if exist else [('createOpPoint', 'op', 'ra')]
    made += [('createOpPoint', 'base', 'la')] if rel and not existBase else []
    assert d.log == made, 'operational points created: %s' % d.log
    loop(t)
    assert t.gain.log == [('set', 0.1, 0.1, 125e3)], 'gain %s' % t.gain.log
    assert str(t.feature.selec.value) == ('11' if vis else '111111'), 'selection'
    if not vis:
        assert ('frame', 'current') in t.feature.log
    else:
        assert t.feature.xy.source is t.proj.point2D and t.feature.Z.source is t.proj.depth, 'projection'
    state = {'': None, 'Base': None}
    selec = str(t.feature.selec.value)
    d.position.time = 0
    changes = 0
    for op, v, form, g, sel, reset in ops:
        base = 'Base' if op.endswith('Base') else ''
        n, r, k = len(t.gain.log), t.task.log.count(('resetJacobianDerivative',)), len(t.feature.log)
        if base and not rel:
            continue
        if op.startswith('modif'):
            setattr(t, 'opmodif' + base, homo(v))
            state[base] = homo(v)
            changes += 1
        elif op.startswith('plain'):
            setattr(t, 'opmodif' + base, False)
            state[base] = None
            changes += 1
        elif op == 'ref':
            if vis:
                t.ref = v[:2]
                close(t.ref, v[:2], 0, 'reference')
                close(t.featureDes.xy.value, v[:2], 0, 'reference')
            else:
                t.ref = homo(v)
                close(t.ref, homo(v), 0, 'reference')
                close(t.featureDes.position.value, homo(v), 0, 'reference')
        elif op == 'keep' and not vis:
            d.position.time += 3
            t.keep()
            assert t.feature.position.log[-1] == d.position.time, 'position not computed at the time of the robot'
            assert t.feature.log[k:] == [('keep',)], 'keep'
        elif op.startswith('goto'):
            p, want = position(form, v)
            q, want2 = position(FORMS[len(v) - 1], [x / 2 for x in v])
            s = Flags(sel[1:]) if sel and sel[0] == 'F' else sel
            if vis:
                kw = dict(ref2D=np.array(v[3:5]) if sel is None else v[3:5]) if reset else {}
                s = s if not isinstance(s, str) else s[:2]
                t.goto3D(v[:3], gain=as_gain(g), selec=s, **kw)
                close(t.proj.point3D.value, v[:3], 0, 'target')
                if reset:
                    close(t.ref, v[3:5], 0, 'reference')
                selec = str(s) if s is not None else selec
            # the derivative of the Jacobian is reset by default
            kr = dict() if reset else dict(resetJacobian=False)
            if vis:
                pass
            elif rel:
                if op == 'goto':
                    meta_tasks_kine_relative.goto6dRel(t, p, q, as_gain(g), **kr)
                else:
                    meta_tasks_kine_relative.gotoNdRel(t, p, q, s, as_gain(g), **kr)
                close(t.featureDes.positionRef.value, want2, 1e-12, 'reference of the base')
            elif op == 'goto':
                meta_tasks.goto6d(t, p, as_gain(g), **kr)
            else:
                meta_tasks.gotoNd(t, p, s, as_gain(g), **kr)
            if not vis:
                close(t.featureDes.position.value, want, 1e-12, 'reference')
                selec = '111111' if op == 'goto' else str(s) if s is not None else selec
                assert t.task.log.count(('resetJacobianDerivative',)) - r == (pd and reset), 'derivative of the Jacobian reset'
            check_gain(t.gain, g, n)
        if not op.startswith('goto'):
            assert len(t.gain.log) == n, 'gain changed'
        assert str(t.feature.selec.value) == selec, 'selection %s instead of %s' % (t.feature.selec.value, selec)
        for b in ('', 'Base') if rel else ('',):
            m = getattr(t, 'opPointModif' + b)
            o = 'base' if b else 'op'
            at = t.proj.transfo if vis else t.feature.signal('positionRef' if b else 'position')
            J = t.feature.signal('JqRef' if b else 'Jq')
            assert m.positionIN.source is d.signal(o) and m.jacobianIN.source is d.signal('J' + o), 'input of the modifier'
            if state[b] is None:
                assert getattr(t, 'opmodif' + b) is False
                assert at.source is d.signal(o) and J.source is d.signal('J' + o), 'point %s not followed' % o
            else:
                close(getattr(t, 'opmodif' + b), state[b], 0, 'modification')
                close(m.m, state[b], 0, 'modification')
                assert at.source is m.position and J.source is m.jacobian, 'modified point %s not followed' % o
    loop(t)
    ctx.nontrivial(changes > 1 and len(ops) > 3)


@prop(st.tuples(v3, v3, gain, st.booleans()))
def com(c, ctx):
    Entity.all.clear()
    d = Dyn('dyn')
    t = meta_tasks_kine.MetaTaskKineCom(d) if c[3] else meta_tasks_kine.MetaTaskKineCom(d, 'other')
    loop(t)
    d.com.value = c[0]
    assert t.feature.errorIN.source is d.com and t.feature.jacobianIN.source is d.Jcom
    t.ref = c[1]
    close(t.ref, c[1], 0, 'reference')
    close(t.featureDes.errorIN.value, c[1], 0, 'reference')
    close(t.feature.errorIN.value, c[0], 0, 'measure')
    n = len(t.gain.log)
    meta_tasks.setGain(t.gain, as_gain(c[2]))
    check_gain(t.gain, c[2], n)
    ctx.nontrivial(c[2] is not None and any(c[1]))


R = meta_task_posture.MetaTaskPosture.postureRange
limb = st.sampled_from(sorted(R))


@prop(st.tuples(st.lists(st.sampled_from([36, 38, 40, 30]), min_size=1, max_size=2),
                st.lists(st.tuples(st.integers(0, 1), st.sampled_from([None, 'tuple', 'ints', 'column', 'row', 'matrix', 'array']),
                                   st.lists(limb, max_size=3, unique=True), st.sampled_from(['tuple', 'list', 'array', 'matrix', 'empty']), gain,
                                   st.lists(num, min_size=45, max_size=45)), min_size=1, max_size=4)))
def posture(c, ctx):
    Entity.all.clear()
    meta_task_posture.MetaTaskPosture.nbDof = None
    ts = []
    for k, n in enumerate(c[0]):
        d = Dyn('dyn%d' % k)
        d.position.value = np.arange(n) * 0.1
        t = meta_task_posture.MetaTaskKinePosture(d, 'posture%d' % k)
        loop(t)
        assert t.feature.errorIN.source is d.position
        close(t.feature.jacobianIN.value, np.eye(n), 0, 'Jacobian')
        ts.append((t, n))
    # a limb is its parts one after the other, the two sides are alike, and no joint belongs to two limbs
    for side in 'rl':
        for whole, parts in (('leg', ('hip', 'knee', 'ankle')), ('arm', ('shoulder', 'elbow', 'wrist'))):
            assert list(R[side + whole]) == [i for p in parts for i in R[side + p]], 'joints of %s' % (side + whole)
    for part in ('leg', 'hip', 'knee', 'ankle', 'arm', 'shoulder', 'elbow', 'wrist', 'hand'):
        assert len(R['r' + part]) == len(R['l' + part]), 'joints of both sides: %s' % part
    joints = [i for l in ('rleg', 'lleg', 'chest', 'head', 'rarm', 'rhand', 'larm', 'lhand') for i in R[l]]
    assert sorted(joints) == list(range(6, 6 + len(joints))), 'joints of the limbs'
    limbs_seen = 0
    for which, form, limbs, kind, g, x in c[1]:
        t, n = ts[which % len(ts)]
        q = np.array(x[:n], float)
        given = {None: lambda: None, 'tuple': lambda: tuple(q), 'ints': lambda: tuple(int(e) for e in q), 'column': lambda: q.reshape(-1, 1),
                 'row': lambda: np.matrix(q), 'matrix': lambda: np.matrix(q).T, 'array': lambda: q.copy()}[form]()
        copy = None if given is None else np.array(given)
        want = np.zeros(n) if form is None else np.array([int(e) for e in q], float) if form == 'ints' else q.copy()
        act = [False] * n
        kw = {}
        for l in limbs:
            r = [i for i in R[l]]
            if r[-1] >= n:
                continue
            v = [float(x[(i * 5 + 1) % 45]) + 0.25 for i in r]
            kw[l] = {'tuple': tuple(v), 'list': v, 'array': np.array(v), 'matrix': np.matrix(v).T, 'empty': []}[kind]
            for i, e in zip(r, v):
                act[i] = True
                if kind != 'empty':
                    want[i] = e
        before = len(t.gain.log)
        t.gotoq(gain=as_gain(g), qdes=given, **kw)
        # limbs overlap: the last one given wins
        close(t.ref, want, 1e-12, 'posture wanted for %s' % sorted(kw))
        assert t.feature.selec.value.bits == act, 'joints selected'
        assert given is None or np.array_equal(np.array(given), copy), 'the posture given is modified'
        check_gain(t.gain, g, before)
        limbs_seen += len(kw)
    ctx.nontrivial(limbs_seen > 1)


@prop(st.tuples(st.booleans(), st.lists(st.sampled_from([None, 'tuple', 'array', 'signal']), min_size=4, max_size=4), st.booleans(),
                st.booleans(), st.lists(v6, min_size=4, max_size=4), st.sampled_from(['current', 'desired'])))
def feature(c, ctx):
    rel, forms, jac, jac2, vs, frame = c
    Entity.all.clear()
    d = Dyn('dyn')
    for k in range(4):
        d.add('op%d' % k)

    def given(k, signal=True):
        f = forms[k]
        if f == 'signal' and not signal:
            f = 'array'
        m = homo(vs[k])
        return None if f is None else d.signal('op%d' % k) if f == 'signal' else matrixToTuple(m) if f == 'tuple' else m, f, m

    def check(s, k, f, m, default):
        if f == 'signal':
            assert s.source is d.signal('op%d' % k), 'signal not plugged'
        elif f is None:
            if default:
                close(s.value, np.eye(4), 0, 'identity by default')
        else:
            close(s.value, m, 0, 'value of ' + s.full)
    J, J2 = d.signal('Jop0'), d.signal('Jop1')
    if rel:
        a = [given(k) for k in range(4)]
        f = feature_position_relative.FeaturePositionRelative('f', basePosition=a[0][0], otherPosition=a[1][0], baseReference=a[2][0],
                                                              otherReference=a[3][0], JqBase=J if jac else None, JqOther=J2 if jac2 else None)
        names = ['basePosition', 'otherPosition', 'baseReference', 'otherReference']
        for k, n in enumerate(names):
            check(f.signal(n), k, a[k][1], a[k][2], True)
        assert f.signal('JqBase').source is (J if jac else None) and f.signal('JqOther').source is (J2 if jac2 else None), 'Jacobians'
        assert f.basePosition is f._feature.positionRef and f.otherPosition is f._feature.position
        assert f.baseReference is f._reference.positionRef and f.otherReference is f._reference.position
        names += ['JqBase', 'JqOther', 'error', 'jacobian', 'selec']
    else:
        p = d.signal('op0') if forms[0] == 'signal' else None
        r, rf, rm = given(1, False)
        f = feature_position.FeaturePosition('f', p, J if jac else None, r)
        assert f.position.source is p and f.Jq.source is (J if jac else None), 'inputs'
        check(f.reference, 1, rf, rm, False)
        assert f.reference is f._reference.position and f.velocity is f._reference.velocity
        names = ['position', 'reference', 'Jq', 'error', 'selec']
    assert f.name == 'f'
    assert f._feature.log == [('setReference', 'f_ref'), ('frame', 'current')]
    assert str(f.selec.value) == '111111'
    assert len(list(f.signals())) == len(names)
    for n in names:
        assert f.signal(n) is getattr(f, n), n
        assert f.signal(n) in list(f.signals())
    for n in ('none', '', 'Position'):
        try:
            f.signal(n)
        except RuntimeError:
            continue
        assert False, 'signal %r found' % n
    f.frame(frame)
    f.keep()
    assert f._feature.log[2:] == [('frame', frame), ('keep',)]
    assert {'frame', 'keep'} <= set(f.commands())
    ctx.nontrivial('signal' in forms and 'array' in forms)


if __name__ == '__main__':
    sys.exit(main())
