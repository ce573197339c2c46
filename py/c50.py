"""C50: the python bindings show the C++ objects faithfully."""
import importlib.machinery
import importlib.util
import itertools
import os
import sys

import numpy as np
import vpy
from vpy import prop, st

PATH = os.environ['VERIF_PYEXT']


def load(name):
    ld = importlib.machinery.ExtensionFileLoader(name, PATH)
    sp = importlib.util.spec_from_file_location(name, PATH, loader=ld)
    m = importlib.util.module_from_spec(sp)
    ld.exec_module(m)
    sys.modules[name] = m
    return m


dg = load('dynamic_graph')
core, op, ie, sw, ru = [load(n) for n in ('wrap_core', 'wrap_operator', 'wrap_ie', 'wrap_switch', 'robot_utils_sot_py')]
count = itertools.count()


def fresh(c):
    return '%s%d' % (c, next(count))


def raises(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def same(a, b, msg):
    assert a == b, '%s: %r instead of %r' % (msg, a, b)


def lst(x):
    return x.tolist() if hasattr(x, 'tolist') else x


# ---------------------------------------------------------------- flags
BITS = st.lists(st.booleans(), max_size=7)
SLOT = st.integers(0, 3)
FLAG_OPS = st.lists(st.one_of(
    st.tuples(st.just('new'), SLOT, st.sampled_from(['none', 'str', 'list', 'tuple', 'ints']), BITS),
    st.tuples(st.just('parse'), SLOT, st.text('01 ', max_size=8)),
    st.tuples(st.just('bad'), SLOT, st.text('01x- ', min_size=1, max_size=5)),
    st.tuples(st.sampled_from(['add']), SLOT, st.booleans()),
    st.tuples(st.sampled_from(['set', 'unset', 'call']), SLOT, st.integers(0, 9)),
    st.tuples(st.sampled_from(['and', 'or']), SLOT, SLOT, SLOT),
    st.tuples(st.sampled_from(['iand', 'ior']), SLOT, SLOT),
    st.tuples(st.just('not'), SLOT, SLOT)), max_size=14)


class Bits:
    def __init__(self, b=(), tail=False):
        self.b, self.tail = list(b), tail

    def at(self, i):
        return self.b[i] if i < len(self.b) else self.tail

    def mix(self, o, f):
        n = max(len(self.b), len(o.b))
        return Bits([f(self.at(i), o.at(i)) for i in range(n)], f(self.tail, o.tail))


@prop(FLAG_OPS)
def flags(ops, c):
    F, M = [core.Flags() for _ in range(4)], [Bits() for _ in range(4)]
    AND, OR = (lambda a, b: a and b), (lambda a, b: a or b)
    mixed = 0
    for o in ops:
        k, i = o[0], o[1]
        if k == 'new':
            how, b = o[2], o[3]
            if how == 'none':
                F[i], M[i] = core.Flags(), Bits()
            else:
                s = ''.join('01'[x] for x in b)
                F[i] = core.Flags(dict(str=s, list=b, tuple=tuple(b), ints=[bool(x) for x in b])[how])
                M[i] = Bits(b)
        elif k == 'parse':
            F[i].set(o[2])
            M[i] = Bits([x == '1' for x in o[2] if x != ' '])
        elif k == 'bad':
            wrong = any(x not in '01 ' for x in o[2])
            same(raises(core.Flags, o[2]), wrong, 'flags of %r refused' % o[2])
        elif k == 'add':
            F[i].add(o[2])
            M[i].b.append(o[2])
        elif k in ('set', 'unset'):
            getattr(F[i], k)(o[2])
            if o[2] < len(M[i].b):
                M[i].b[o[2]] = k == 'set'
        elif k == 'call':
            same(F[i](o[2]), M[i].at(o[2]), 'flag %d' % o[2])
        elif k in ('and', 'or'):
            x, y = o[2], o[3]
            F[i], M[i] = (F[x] & F[y], M[x].mix(M[y], AND)) if k == 'and' else (F[x] | F[y], M[x].mix(M[y], OR))
            mixed += 1
        elif k in ('iand', 'ior'):
            j = o[2]
            f = F[i]
            if k == 'iand':
                f &= F[j]
            else:
                f |= F[j]
            same(str(f), str(F[i]), 'object combined in place')
            F[i], M[i] = f, M[i].mix(M[j], AND if k == 'iand' else OR)
            mixed += 1
        else:
            F[i], M[i] = F[o[2]].reversed(), Bits([not x for x in M[o[2]].b], not M[o[2]].tail)
        for f, m in zip(F, M):
            same(str(f), ''.join('01'[x] for x in m.b), 'flags after %s' % (o,))
            same(bool(f), m.tail or any(m.b), 'some flag of %s' % f)
            same([f(n) for n in range(10)], [m.at(n) for n in range(10)], 'flags one by one')
    c.nontrivial(mixed >= 2)


# ---------------------------------------------------------------- periodic calls
CALL_OPS = st.lists(st.one_of(
    st.tuples(st.just('add'), st.integers(0, 1), st.integers(0, 3), st.sampled_from(['a', 'b', 'c', 'd'])),
    st.tuples(st.just('addpath'), st.integers(0, 1), st.integers(0, 3)),
    st.tuples(st.just('down'), st.integers(0, 1), st.integers(0, 3), st.sampled_from(['a', 'b', 'c', 'd']), st.integers(0, 4)),
    st.tuples(st.just('downpath'), st.integers(0, 1), st.integers(0, 3), st.integers(0, 4)),
    st.tuples(st.just('rm'), st.integers(0, 1), st.sampled_from(['a', 'b', 'c', 'd'])),
    st.tuples(st.just('rmpath'), st.integers(0, 1), st.integers(0, 3)),
    st.tuples(st.just('unknown'), st.integers(0, 1), st.booleans()),
    st.tuples(st.just('clear'), st.integers(0, 1)),
    st.tuples(st.just('step')), st.tuples(st.just('step'))), max_size=16)


@prop(CALL_OPS)
def periodic_calls(ops, c):
    d = core.Device(fresh('dev'))
    dg.resize(d, 9)
    d.call('setSanityCheck', False)
    same(str(core.Device(fresh('other')).after), str(d.after), 'calls of a new device')
    probes = [op.Add_of_vector(fresh('p')) for _ in range(4)]
    for p in probes:
        dg.plug(d.signal('state'), p.sin(0))
    calls, model = [d.before, d.after], [{}, {}]
    control, t, steps = d.signal('control'), 0, 0
    for o in ops + [('step',), ('step',)]:
        k = o[0]
        if k == 'step':
            t += 1
            control.value = [0.] * 6 + [1., 2., float(t)]
            before = [lst(p.sout.value) if p.sout.time else None for p in probes]
            for i, p in enumerate(probes):
                p.sin(1).value = [100. * t + i] + [0.] * 8
            state = lst(d.signal('state').value)
            dg.increment(d, 0.5)
            after = lst(d.signal('state').value)
            now = d.signal('state').time
            same(now, t, 'time of the device')
            for i, p in enumerate(probes):
                due = [any(x == i and now % f == 0 for x, f in m.values()) for m in model]
                same(p.sout.time == now, any(due), 'signal %d computed at %d' % (i, now))
                if any(due):
                    # what is called before the command sees the state before; a second call at the same time computes nothing again
                    s = state if due[0] else after
                    same(lst(p.sout.value), [s[0] + 100 * t + i] + s[1:], 'value %d with %s' % (i, due))
                elif before[i] is not None:
                    same(lst(p.sout.value), before[i], 'value kept')
            steps += sum(len(m) for m in model)
            continue
        w = o[1]
        call, m = calls[w], model[w]
        if k in ('add', 'down'):
            s = probes[o[2]].sout
            if k == 'add':
                call.addSignal(o[3], s)
                m[o[3]] = (o[2], 1)
            else:
                same(raises(call.addDownsampledSignal, o[3], s, o[4]), o[4] == 0, 'factor %d refused' % o[4])
                if o[4]:
                    m[o[3]] = (o[2], o[4])
        elif k in ('addpath', 'downpath'):
            path = probes[o[2]].name + '.sout'
            if k == 'addpath':
                call.addSignal(path)
                m[path] = (o[2], 1)
            else:
                same(raises(call.addDownsampledSignal, path, o[3]), o[3] == 0, 'factor %d refused' % o[3])
                if o[3]:
                    m[path] = (o[2], o[3])
        elif k == 'rm':
            call.rmSignal(o[2])
            m.pop(o[2], None)
        elif k == 'rmpath':
            path = probes[o[2]].name + '.sout'
            call.rmSignal(path)
            m.pop(path, None)
        elif k == 'unknown':
            bad = 'nobody.sout' if o[2] else probes[0].name + '.nothing'
            assert raises(call.addSignal, bad), 'signal %s accepted' % bad
            assert raises(call.addDownsampledSignal, bad, 2), 'signal %s accepted' % bad
        elif k == 'clear':
            call.clear()
            m.clear()
        for x, y in zip((d.before, d.after), model):
            names = [l[3:] for l in str(x).split('\n') if l.startswith(' - ')]
            same(names, sorted(y), 'calls listed after %s' % (o,))
    c.nontrivial(steps >= 3)


# ---------------------------------------------------------------- operators
NAMES = sorted(n for n in dir(op) if n[0] != '_')
VARIADIC = [n for n in NAMES if hasattr(getattr(op, n), 'n_sin')]
num = st.floats(-8, 8).map(lambda x: round(x, 3))


@prop(st.tuples(st.sampled_from(NAMES), st.lists(st.tuples(st.booleans(), st.integers(-2, 5)), max_size=6)))
def operator_signals(case, c):
    name, sizes = case
    C = getattr(op, name)
    n = fresh('e')
    e = C(n)
    same((e.name, e.className), (n, name), 'name and class')
    same(C.__name__, name, 'name of the python class')
    assert raises(C, n), 'two entities named %s' % n

    def shown(s, short):
        assert e.hasSignal(short), 'no signal %s' % short
        same(s.address, e.signal(short).address, 'signal shown as %s' % short)
        same(s.name, short, 'name')
    shown(e.sout, 'sout')
    if name in VARIADIC:
        k = e.n_sin
        first = 'default' if name == 'Mix_of_vector' else None
        kept = {}
        for direct, m in sizes:
            def resize():
                if direct:
                    e.n_sin = m
                else:
                    e.setSignalNumber(m)
            no = raises(resize)
            same(no, m < 0, 'size %d refused' % m)
            if not no:
                if m == 0:
                    first = None
                k = m
                kept = {i: a for i, a in kept.items() if i < k}
            same((e.n_sin, e.getSignalNumber()), (k, k), 'number of inputs')
            for i in range(k):
                shown(e.sin(i), first if first and i == 0 else 'sin%d' % i)
                a = e.sin(i).address
                same(kept.setdefault(i, a), a, 'input %d is another signal' % i)
            assert raises(e.sin, k) and raises(e.sin, -1), 'input %d of %d' % (k, k)
            assert not e.hasSignal('sin%d' % k), 'input %d still there' % k
        c.nontrivial(len(sizes) >= 2)
    elif hasattr(C, 'sin1'):
        shown(e.sin1, 'sin1')
        shown(e.sin2, 'sin2')
        c.nontrivial()
    else:
        shown(e.sin, 'sin')
        c.nontrivial()
    for s in [x for x in ('sin', 'sin1', 'sin2', 'sout') if hasattr(C, x) and not (x == 'sin' and name in VARIADIC)]:
        assert raises(setattr, e, s, e.sout), 'signal %s overwritten' % s


def vec(n):
    return st.lists(num, min_size=n, max_size=n)


def mat(n, m=None):
    return st.lists(vec(m or n), min_size=n, max_size=n)


A = lambda x: np.array(x, float)


def prod(xs, f, one):
    r = one
    for i, x in enumerate(xs):
        r = A(x) if i == 0 else f(r, A(x))
    return r


VALUES = {'double': num, 'vector': vec(3), 'matrix': mat(2)}
VAR = {  # class: (values, function of the values and the coefficients)
    'Add_of_double': (num, lambda v, k: sum(a * x for a, x in zip(k, v))),
    'Add_of_vector': (vec(3), lambda v, k: sum(a * A(x) for a, x in zip(k, v))),
    'Add_of_matrix': (mat(2), lambda v, k: sum(a * A(x) for a, x in zip(k, v))),
    'Multiply_of_double': (num, lambda v, k: prod(v, lambda a, b: a * b, 1.)),
    'Multiply_of_vector': (vec(3), lambda v, k: prod(v, lambda a, b: a * b, [])),
    'Multiply_of_matrix': (mat(2), lambda v, k: prod(v, lambda a, b: a @ b, None)),
    'And': (st.booleans(), lambda v, k: all(v)),
    'Or': (st.booleans(), lambda v, k: any(v)),
}
ALL = st.sampled_from(sorted(VAR)).flatmap(lambda n: st.tuples(st.just(n), st.lists(st.one_of(
    st.tuples(st.just('size'), st.integers(1, 5)),
    st.tuples(st.just('coeffs'), st.lists(num, max_size=5), st.integers(0, 9)),
    st.tuples(st.just('value'), st.integers(0, 5), VAR[n][0]),
    st.tuples(st.just('plug'), st.integers(0, 5), VAR[n][0]),
    st.tuples(st.just('read'), VAR[n][0])), max_size=12)))


@prop(ALL)
def variadic_values(case, c):
    name, ops = case
    e = getattr(op, name)(fresh('v'))
    adder = name.startswith('Add')
    want = VAR[name][1]
    k = 0 if name in ('And', 'Or') else 2
    same(e.n_sin, k, 'inputs of a new %s' % name)
    val, coeffs, src = [None] * k, [1.] * k, {}
    t = reads = changes = 0
    for o in ops:
        if o[0] == 'size':
            k = o[1]
            if changes % 2:
                e.setSignalNumber(k)
            else:
                e.n_sin = k
            changes += 1
            val = (val + [None] * k)[:k]
            src = {i: s for i, s in src.items() if i < k}
            coeffs = [1.] * k
        elif o[0] == 'coeffs' and adder:
            x = o[1] if not o[2] else (o[1] + [float(o[2])] * k)[:k]

            def put():
                e.coeffs = x
            same(raises(put), len(x) != k, 'coefficients %s for %d inputs' % (x, k))
            if len(x) == k:
                coeffs = x
        elif o[0] in ('value', 'plug') and k:
            i = o[1] % k
            val[i] = o[2]
            s = e.sin(i)
            if o[0] == 'value':
                if i in src:
                    s.unplug()
                    src.pop(i)
                s.value = o[2]
            else:
                one = {'A': 'Add', 'M': 'Multiply', 'O': 'Or'}[name[0]] if name not in ('And', 'Or') else name
                w = e.__class__(fresh('w'))
                w.n_sin = 1
                w.sin(0).value = o[2]
                dg.plug(w.sout, s)
                src[i] = w
        elif o[0] == 'read' and k:
            # (inputs are set again: a change of coefficients alone is seen at the next change of an input)
            t += 1
            for i in range(k):
                if val[i] is None:
                    val[i] = o[1]
                (src[i].sin(0) if i in src else e.sin(i)).value = val[i]
            got = lst(e.sout.at(t))
            same(e.sout.time, t, 'time')
            r = want(val, coeffs)
            vpy.close(got, r, 1e-9 * (1 + np.max(np.abs(A(r))) if np.size(r) else 1), '%s of %s with %s' % (name, val, coeffs))
            vpy.close(lst(e.sout.value), r, 1e-9 * (1 + np.max(np.abs(A(r)))), 'value kept')
            reads += 1
        if adder:
            same(lst(e.coeffs), coeffs, 'coefficients')
        same((e.n_sin, e.getSignalNumber()), (k, k), 'inputs')
    c.nontrivial(reads and changes)


BIN = {
    'Substract_of_double': (num, num, lambda a, b: a - b),
    'Substract_of_vector': (vec(3), vec(3), lambda a, b: A(a) - A(b)),
    'Substract_of_matrix': (mat(2, 3), mat(2, 3), lambda a, b: A(a) - A(b)),
    'Multiply_matrix_vector': (mat(2, 3), vec(3), lambda a, b: A(a) @ A(b)),
    'Multiply_double_vector': (num, vec(3), lambda a, b: a * A(b)),
    'CompareDouble': (num, num, lambda a, b: a < b),
    'MatrixTranspose': (mat(2, 3), None, lambda a: A(a).T),
    'MatrixDiagonal': (vec(3), None, lambda a: np.diag(a)),
    'Norm_of_vector': (vec(3), None, lambda a: np.linalg.norm(a)),
    'WeightAdd_of_double': (num, num, lambda a, b: a + b),
}


def someop(n):
    a, b, _ = BIN[n]
    return st.tuples(st.just(n), st.lists(st.tuples(a, b if b is not None else st.none()), min_size=1, max_size=4))


@prop(st.sampled_from(sorted(BIN)).flatmap(someop))
def operator_values(case, c):
    name, vals = case
    e, f = getattr(op, name)(fresh('o')), BIN[name][2]
    if name.startswith('Weight'):
        e.call('setGain1', 1.)
        e.call('setGain2', 1.)
    for t, (a, b) in enumerate(vals, 1):
        if b is None:
            e.sin.value = a
            r = f(a)
        else:
            e.sin1.value, e.sin2.value = a, b
            r = f(a, b)
        vpy.close(lst(e.sout.at(t)), r, 1e-9 * (1 + np.max(np.abs(A(r)))), '%s of %s and %s' % (name, a, b))
        same(e.sout.time, t, 'time')
    c.nontrivial(len(vals) >= 2)


@prop(st.tuples(st.integers(0, 999), st.integers(0, 999)))
def every_class_is_shown(case, c):
    """a class of the factory has its python class, which makes entities of this class"""
    names = [n for n in dg.registered() if n != 'Provider']
    for n in [names[case[0] % len(names)], names[case[1] % len(names)]]:
        m = [m for m in (core, op, ie, sw) if hasattr(m, n)]
        same(len(m), 1, 'modules with a class %s' % n)
        e = getattr(m[0], n)(fresh('f'))
        same((e.className, type(e).__name__), (n, n), 'class')
    for n in NAMES + ['SwitchVector', 'SwitchBoolean', 'SwitchMatrixHomogeneous'] + sorted(KIND):
        assert n in names, 'class %s is not in the factory' % n
    c.nontrivial()


# ---------------------------------------------------------------- integrators
KIND = {'IntegratorEulerDoubleDouble': num, 'IntegratorEulerVectorDouble': num, 'IntegratorEulerVectorMatrix': mat(2)}
HOW = st.sampled_from(['list', 'tuple', 'iter'])


def ieops(n):
    co = st.lists(KIND[n], max_size=4)
    side = st.sampled_from(['numerators', 'denominators'])
    ops = [st.tuples(st.just('set'), side, HOW, co), st.tuples(st.just('pop'), side)]
    if KIND[n] is num:
        ops.append(st.tuples(st.just('push'), side, num))
    return st.tuples(st.just(n), st.lists(st.one_of(*ops), max_size=8))


@prop(st.sampled_from(sorted(KIND)).flatmap(ieops))
def integrator_coefficients(case, c):
    name, ops = case
    e = getattr(ie, name)(fresh('i'))
    m = dict(numerators=[], denominators=[])
    short = dict(numerators='Num', denominators='Denom')

    def get(side):
        return [lst(x) for x in getattr(e, side)]
    for o in ops:
        side = o[1]
        if o[0] == 'set':
            x = o[3]
            setattr(e, side, {'list': list, 'tuple': tuple, 'iter': iter}[o[2]](x))
            m[side] = list(x)
        elif o[0] == 'push':
            e.call('push%sCoef' % short[side], o[2])
            m[side].append(o[2])
        else:
            same(raises(e.call, 'pop%sCoef' % short[side]), not m[side], 'pop of %s' % m[side])
            m[side] = m[side][:-1]
        for s in m:
            same(get(s), m[s], s + ' after %s' % (o,))
        got = getattr(e, side)
        if got:
            got.pop()                    # the list is a copy
            same(get(side), m[side], 'coefficients after a change of the list read')
    c.nontrivial(len(ops) >= 3)


# ---------------------------------------------------------------- switches
SWV = {'SwitchBoolean': st.booleans(), 'SwitchVector': vec(2),
       'SwitchMatrixHomogeneous': vec(3).map(lambda t: [[1., 0., 0., t[0]], [0., 1., 0., t[1]], [0., 0., 1., t[2]], [0., 0., 0., 1.]])}


def swops(n):
    return st.tuples(st.just(n), st.lists(st.tuples(st.integers(0, 4), st.lists(SWV[n], min_size=4, max_size=4), st.booleans(),
                                                    st.integers(-1, 4)), max_size=5))


@prop(st.sampled_from(sorted(SWV)).flatmap(swops))
def switches(case, c):
    name, ops = case
    e = getattr(sw, name)(fresh('s'))
    same(e.className, name, 'class')
    same(e.n_sin, 0, 'inputs of a new switch')
    plugged, done = False, 0
    for s, n in ((e.selection, 'selection'), (e.boolSelection, 'boolSelection'), (e.sout, 'sout')):
        same((s.address, s.name), (e.signal(n).address, n), 'signal ' + n)
    for t, (k, vals, by_int, sel) in enumerate(ops, 1):
        if t % 2:
            e.n_sin = k
        else:
            e.setSignalNumber(k)
        same((e.n_sin, e.getSignalNumber()), (k, k), 'number of inputs')
        assert raises(e.sin, k) and raises(e.sin, -1), 'input out of range'
        for i in range(k):
            same(e.sin(i).address, e.signal('sin%d' % i).address, 'input %d' % i)
            e.sin(i).value = vals[i]
        if by_int:
            e.selection.value = sel
            plugged = True
        else:
            if plugged:
                e.selection.unplug()
                plugged = False
            sel = abs(sel) % 2
            e.boolSelection.value = bool(sel)
        out = []
        no = raises(lambda: out.append(lst(e.sout.at(t))))
        same(no, not 0 <= sel < k, 'selection %d of %d refused' % (sel, k))
        if not no:
            same(out[0], vals[sel], 'selected value')
            done += 1
    c.nontrivial(done >= 2)


# ---------------------------------------------------------------- robot parameters
FN = st.sampled_from(['rf', 'lf', 'rh', 'lh', 'tail', ''])
IDX = st.integers(-1, 6)
RO = st.lists(st.one_of(
    st.tuples(st.just('force'), FN, IDX), st.tuples(st.just('flimits'), IDX, vec(6), vec(6)),
    st.tuples(st.just('limb'), st.sampled_from(['left_hand', 'right_hand', 'left_foot', 'right_foot']), IDX),
    st.tuples(st.just('jlimits'), IDX, num, num), st.tuples(st.just('edit'), IDX, num, num),
    st.tuples(st.just('name'), FN, IDX), st.tuples(st.just('unname'), FN),
    st.tuples(st.just('id'), IDX, FN), st.tuples(st.just('swap'),), st.tuples(st.just('remap'),),
    st.tuples(st.just('foot'), FN, FN, vec(3), vec(3)), st.tuples(st.just('order'), st.lists(IDX, max_size=5), st.booleans())), max_size=14)


class Force:
    def __init__(self):
        self.ids, self.back, self.lim = {}, {}, {}
        self.limb = dict(left_hand=-1, right_hand=-1, left_foot=-1, right_foot=-1)


def check_force(f, m, what):
    for n in ('rf', 'lf', 'rh', 'lh', 'tail', '', 'other'):
        same(f.get_id_from_name(n), m.ids.get(n, -1), '%s: id of %r' % (what, n))
    for i in range(-1, 8):
        same(f.get_name_from_id(i), m.back.get(i, 'Force name not found'), '%s: name of %d' % (what, i))
        l = f.get_limits_from_id(i)
        same((lst(l.lower), lst(l.upper)), m.lim.get(i, ([0.] * 6, [0.] * 6)), '%s: limits of %d' % (what, i))
    for k in m.limb:
        same(getattr(f, 'get_force_id_' + k)(), m.limb[k], '%s: id of the %s' % (what, k))


def entries(m):
    return {e.key(): e.data() for e in m}


@prop(RO)
def robot_parameters(ops, c):
    r = ru.RobotUtil()
    own = ru.ForceUtil()
    fm, om = Force(), Force()
    jl, ids, names, foot, order = {}, {}, {}, ('', '', [], []), []
    FOOT = ('m_Left_Foot_Frame_Name', 'm_Right_Foot_Frame_Name', 'm_Right_Foot_Sole_XYZ', 'm_Right_Foot_Force_Sensor_XYZ')
    for o in ops:
        k = o[0]
        f = r.m_force_util
        if k == 'force':
            f.set_name_to_force_id(o[1], o[2])
            fm.ids[o[1]] = o[2]
            fm.back = {fm.ids[n]: n for n in sorted(fm.ids)}
            limb = dict(rf='right_foot', lf='left_foot', rh='right_hand', lh='left_hand').get(o[1])
            if limb:
                fm.limb[limb] = o[2]
        elif k == 'flimits':
            f.set_force_id_to_limits(o[1], o[2], o[3])
            fm.lim[o[1]] = (o[2], o[3])
            L = ru.ForceLimits(o[2], o[3])
            same((lst(L.lower), lst(L.upper)), (o[2], o[3]), 'force limits')
            L.upper, L.lower = o[2], o[3]
            same((lst(L.lower), lst(L.upper)), (o[3], o[2]), 'force limits written')
        elif k == 'limb':
            getattr(f, 'set_force_id_' + o[1])(o[2])
            fm.limb[o[1]] = o[2]
        elif k == 'remap':
            f.create_force_id_to_name_map()
            fm.back = {fm.ids[n]: n for n in sorted(fm.ids)}
        elif k == 'swap':                # the parameters are copied
            r.m_force_util = own
            fm = om
            own, om = ru.ForceUtil(), Force()
            own.set_name_to_force_id('rf', 1)
            om.ids, om.back, om.limb['right_foot'] = {'rf': 1}, {1: 'rf'}, 1
        elif k == 'jlimits':
            r.set_joint_limits_for_id(o[1], o[2], o[3])
            jl[o[1]] = (o[2], o[3])
            L = ru.JointLimits(o[2], o[3])
            same((L.lower, L.upper), (o[2], o[3]), 'joint limits')
        elif k == 'edit':                # limits read are a copy
            L = r.get_joint_limits_from_id(o[1])
            L.lower, L.upper = o[2], o[3]
            same((L.lower, L.upper), (o[2], o[3]), 'joint limits written')
        elif k == 'name':
            r.m_name_to_id[o[1]] = o[2]
            ids[o[1]] = o[2]
        elif k == 'unname':
            m = r.m_name_to_id
            same(o[1] in m, o[1] in ids, 'name known')
            if o[1] in ids:
                del m[o[1]]
                del ids[o[1]]
            else:
                assert raises(lambda: m[o[1]]), 'id of an unknown name'
        elif k == 'id':
            r.m_id_to_name[o[1]] = o[2]
            names[o[1]] = o[2]
        elif k == 'foot':
            foot = o[1:]
            for n, v in zip(FOOT, foot):
                setattr(r.m_foot_util, n, v)
        elif k == 'order':
            order = o[1]
            v = ru.IndexVector() if o[2] else r.m_urdf_to_sot
            v[:] = order
            r.m_urdf_to_sot = v
        same(list(r.m_urdf_to_sot), list(order), 'order of the joints')
        same([lst(getattr(r.m_foot_util, n)) for n in FOOT], list(foot), 'parameters of the feet')
        check_force(r.m_force_util, fm, 'robot after %s' % (o[0],))
        check_force(own, om, 'other after %s' % (o[0],))
        for i in range(-1, 8):
            L = r.get_joint_limits_from_id(i)
            same((L.lower, L.upper), jl.get(i, (0., 0.)), 'limits of joint %d after %s' % (i, o))
        same(entries(r.m_name_to_id), ids, 'names to ids')
        same(entries(r.m_id_to_name), names, 'ids to names')
        same((len(r.m_name_to_id), len(r.m_id_to_name)), (len(ids), len(names)), 'sizes')
        same(r.m_nbJoints, 0, 'number of joints')
    assert raises(setattr, r, 'm_nbJoints', 3), 'number of joints written'
    c.nontrivial(len(ops) >= 5)


if __name__ == '__main__':
    sys.exit(vpy.main())
