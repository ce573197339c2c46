"""Stand-ins of the classes of the compiled extension which the python sources use: entities with named signals, plugs, commands which
are noted in the order they come."""
import types

import numpy as np


class SignalBase:
    pass


class Signal(SignalBase):
    def __init__(self, full, kind):
        self.full, self.kind, self.time = full, kind, 0
        self.source = self._v = None
        self.log = []

    def getName(self):
        return self.full

    @property
    def name(self):
        return self.full

    @property
    def value(self):
        if self.source is not None:
            return self.source.value
        if self._v is None:
            raise RuntimeError('signal %s is not set' % self.full)
        return self._v.copy() if isinstance(self._v, np.ndarray) else self._v

    @value.setter
    def value(self, v):
        if self.kind == 'flags':
            if not isinstance(v, Flags):
                raise TypeError('%s: Flags expected, not %r' % (self.full, v))
        else:
            v = np.array(v, dtype=float)
            if self.kind == 'homo' and v.shape != (4, 4) or self.kind == 'vec' and v.ndim != 1 or self.kind == 'mat' and v.ndim != 2:
                raise TypeError('%s: shape %s' % (self.full, v.shape))
        self.source, self._v = None, v

    def recompute(self, t):
        self.time = t
        self.log.append(t)


def plug(a, b):
    assert isinstance(a, Signal) and isinstance(b, Signal), 'plug of something else than signals'
    assert a.kind == b.kind, 'plug of %s (%s) into %s (%s)' % (a.full, a.kind, b.full, b.kind)
    b.source = a


class Flags:
    def __init__(self, v=()):
        if isinstance(v, str):
            assert set(v) <= set('01 '), v
            v = [c == '1' for c in v.replace(' ', '')]
        elif not isinstance(v, (list, tuple)):
            raise TypeError('Flags of %r' % (v,))
        self.bits = [bool(b) for b in v]

    def __str__(self):
        return ''.join('01'[b] for b in self.bits)


class Entity:
    all = {}
    SIG, CMD = {}, ()

    def __init__(self, name):
        assert name not in Entity.all, 'entity %s created twice' % name
        Entity.all[name] = self
        self.obj = object()
        self.name = name
        self.log = []
        self.sigs = {n: Signal('%s(%s)::signal::%s' % (type(self).__name__, name, n), k) for n, k in self.SIG.items()}

    def signal(self, n):
        if n not in self.sigs:
            raise RuntimeError('no signal %s in %s' % (n, self.name))
        return self.sigs[n]

    def signals(self):
        return list(self.sigs.values())

    def commands(self):
        return self.CMD

    def __getattr__(self, n):
        if n in self.__dict__.get('sigs', {}):
            return self.sigs[n]
        if n in self.CMD:
            return lambda *a: self.log.append((n,) + a)
        raise AttributeError('%s has no %s' % (type(self).__name__, n))


class FeatureGeneric(Entity):
    SIG = dict(errorIN='vec', errordotIN='vec', jacobianIN='mat', selec='flags', error='vec', jacobian='mat', errordot='vec')
    CMD = ('setReference', 'getReference')


class FeaturePoint6d(Entity):
    SIG = dict(position='homo', velocity='vec', Jq='mat', selec='flags', error='vec', jacobian='mat', errordot='vec')
    CMD = ('setReference', 'getReference', 'frame', 'getFrame', 'keep')


class FeaturePoint6dRelative(FeaturePoint6d):
    SIG = dict(FeaturePoint6d.SIG, positionRef='homo', JqRef='mat', dotposition='homo', dotpositionRef='homo')


class FeatureVisualPoint(Entity):
    SIG = dict(xy='vec', Z='double', Jq='mat', selec='flags', error='vec', jacobian='mat')
    CMD = ('setReference', 'getReference')


class VisualPointProjecter(Entity):
    SIG = dict(transfo='homo', point3D='vec', point2D='vec', depth='double', point3Dgaze='vec')


class GainAdaptive(Entity):
    SIG = dict(error='vec', gain='double')
    CMD = ('set', 'setConstant', 'setByPoint')


class Task(Entity):
    SIG = dict(error='vec', controlGain='double', jacobian='mat')
    CMD = ('add', 'clear')


class TaskPD(Task):
    def resetJacobianDerivative(self):
        self.log.append(('resetJacobianDerivative',))


class OpPointModifier(Entity):
    SIG = dict(positionIN='homo', jacobianIN='mat', position='homo', jacobian='mat')
    CMD = ()

    def setTransformation(self, m):
        m = np.array(m, dtype=float)
        assert m.shape == (4, 4)
        self.m = m

    def getTransformation(self):
        return self.m


class Dyn(Entity):
    SIG = dict(position='vec', com='vec', Jcom='mat')

    def add(self, op):
        for n, k in ((op, 'homo'), ('J' + op, 'mat')):
            assert n not in self.sigs, 'operational point %s created twice' % n
            self.sigs[n] = Signal('Dyn(%s)::output(%s)::%s' % (self.name, k, n), k)

    def createOpPoint(self, op, ref):
        self.add(op)
        self.log.append(('createOpPoint', op, ref))


def modules():
    r = {}

    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        r[name] = m
    mod('dynamic_graph.entity', Entity=Entity)
    mod('dynamic_graph.signal_base', SignalBase=SignalBase)
    c = 'dynamic_graph.sot.core.'
    mod(c + 'feature_generic', FeatureGeneric=FeatureGeneric)
    mod(c + 'feature_point6d', FeaturePoint6d=FeaturePoint6d)
    mod(c + 'feature_point6d_relative', FeaturePoint6dRelative=FeaturePoint6dRelative)
    mod(c + 'feature_visual_point', FeatureVisualPoint=FeatureVisualPoint)
    mod(c + 'visual_point_projecter', VisualPointProjecter=VisualPointProjecter)
    mod(c + 'gain_adaptive', GainAdaptive=GainAdaptive)
    mod(c + 'task', Task=Task)
    mod(c + 'op_point_modifier', OpPointModifier=OpPointModifier)
    return r
