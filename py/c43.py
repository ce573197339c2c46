"""C43: matrix_util.py against rotations computed independently."""
import math
import sys

import numpy as np

from vpy import close, main, package, prop, st

package()
import dynamic_graph.sot.core.matrix_util as mu  # noqa

ang = st.one_of(st.floats(-7, 7), st.sampled_from([0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4, 1e-9]),
                st.floats(-2e-3, 2e-3).map(lambda e: math.pi / 2 + e), st.floats(-2e-3, 2e-3).map(lambda e: -math.pi / 2 + e))
num = st.one_of(st.floats(-100, 100), st.integers(-5, 5))


def R(axis, a):
    """Rodrigues"""
    u = np.array({'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}[axis] if isinstance(axis, str) else axis, float)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def homo(r, p=(0, 0, 0)):
    m = np.eye(4)
    m[:3, :3] = r
    m[:3, 3] = p
    return m


@prop(st.tuples(st.sampled_from('xyz'), ang))
def axis_rotation(c, ctx):
    close(mu.rotate(c[0], c[1]), homo(R(c[0], c[1])), 1e-12, 'rotation about ' + c[0])
    ctx.nontrivial(abs(c[1]) > 1e-3)


@prop(st.tuples(ang, ang, ang, st.integers(6, 13)))
def rpy(c, ctx):
    r, p, y, digits = c
    want = homo(R('z', y) @ R('y', p) @ R('x', r))
    m = mu.rpy2tr(r, p, y)
    assert isinstance(m, tuple) and all(isinstance(x, tuple) for x in m), 'not a tuple of tuples'
    close(m, want, 1e-12, 'rpy2tr')
    a = mu.tr2rpy(m)
    assert len(a) == 3 and all(type(x) is float for x in a), 'tr2rpy gives %s' % (a,)
    sing = abs(abs(a[1]) - math.pi / 2) < 1.0001e-3
    assert -math.pi / 2 - 1e-12 <= a[1] <= math.pi / 2 + 1e-12
    # yaw, pitch, roll
    close(R('z', a[0]) @ R('y', a[1]) @ R('x', a[2]), want[:3, :3], 3e-3 if sing else 1e-9, 'angles %s of rpy2tr' % a)
    # a matrix known with some digits only
    a = mu.tr2rpy(mu.matrixToTuple(np.round(want, digits)))
    close(R('z', a[0]) @ R('y', a[1]) @ R('x', a[2]), want[:3, :3], 4e-3, 'angles %s of a matrix with %d digits' % (a, digits))
    ctx.nontrivial(abs(r) > 0.1 and abs(p) > 0.1 and abs(y) > 0.1)


@prop(st.tuples(st.tuples(num, num, num), st.tuples(ang, ang, ang), st.sampled_from(['tuple', 'list', 'array', 'matrix'])))
def pose(c, ctx):
    t, (r, p, y), kind = c
    v = list(t) + [r, p, y]
    want = homo(R('z', y) @ R('y', p) @ R('x', r), t)
    m = mu.RPYToMatrix(tuple(v) if kind == 'tuple' else np.array(v) if kind == 'array' else v)
    close(m, want, 1e-12, 'RPYToMatrix')
    if kind == 'tuple':
        m = mu.matrixToTuple(np.asarray(m))
    elif kind == 'list':
        m = np.asarray(m).tolist()
    w = mu.matrixToRPY(m)
    assert len(w) == 6
    close(w[:3], t, 0, 'position of the pose')
    sing = abs(abs(w[4]) - math.pi / 2) < 1.0001e-3
    close(mu.RPYToMatrix(w), want, 3e-3 if sing else 1e-9, 'RPYToMatrix o matrixToRPY')
    close(R('z', w[5]) @ R('y', w[4]) @ R('x', w[3]), want[:3, :3], 3e-3 if sing else 1e-9, 'angles of matrixToRPY')
    # the extreme values keep the position they start from
    close(mu.matrixToRPY(homo(np.eye(3), t)), list(t) + [0, 0, 0], 0, 'pose without rotation')
    ctx.nontrivial(any(t) and abs(p) > 0.1 and abs(y) > 0.1)


@prop(st.tuples(st.integers(1, 4), st.integers(1, 4), st.lists(num, min_size=16, max_size=16), st.booleans()))
def tuples(c, ctx):
    n, k, x, mat = c
    a = np.array(x[:n * k], float).reshape(n, k)
    t = mu.matrixToTuple(np.matrix(a) if mat else a)
    assert isinstance(t, tuple) and len(t) == n and all(isinstance(r, tuple) and len(r) == k for r in t)
    close(t, a, 0, 'matrixToTuple')
    v = np.array(x[:n], float)
    for w in (v, v.reshape(1, n), v.reshape(n, 1), np.matrix(v), np.matrix(v).T):
        t = mu.vectorToTuple(w)
        assert isinstance(t, tuple) and len(t) == n and all(isinstance(e, float) for e in t), 'vectorToTuple of %s' % (w.shape,)
        close(t, v, 0, 'vectorToTuple')
    ctx.nontrivial(n > 1 and k > 1)


@prop(st.lists(num, min_size=6, max_size=6))
def distance(c, ctx):
    a, b = homo(np.eye(3), c[:3]), homo(np.eye(3), c[3:])
    d = mu.distVector(mu.matrixToTuple(a), b)
    close(d, np.array(c[3:], float) - np.array(c[:3], float), 1e-12, 'distVector goes from the first to the second')
    ctx.nontrivial(c[:3] != c[3:])


@prop(st.tuples(st.lists(num, min_size=3, max_size=3), st.lists(st.floats(0, 1), min_size=6, max_size=6)))
def orthonormal(c, ctx):
    v, rnd = np.array(c[0], float), list(c[1])
    n = np.linalg.norm(v)
    if n < 1e-3:
        return
    m = np.array([v / n, rnd[:3], rnd[3:]])
    if abs(np.linalg.det(m)) < 1e-3:
        return
    mu.random = lambda: rnd.pop(0)
    M = mu.generateOrthonormalM(list(c[0]))
    assert not rnd, 'two random vectors'
    M = np.array(M)
    close(M.T @ M, np.eye(3), 1e-9, 'orthonormal')
    close(M[:, 0], v / n, 1e-12, 'first column')
    ctx.nontrivial(np.count_nonzero(v) > 1)


@prop(st.tuples(st.lists(st.floats(-1, 1), min_size=4, max_size=4), st.sampled_from([None, 0, 1, 2, 3])))
def quaternion(c, ctx):
    q = np.array(c[0], float)
    if c[1] is not None:
        q = np.eye(4)[c[1]] * (1 if q[0] > 0 else -1)
    n = np.linalg.norm(q)
    if n < 1e-3:
        return
    q = q / n
    s = np.linalg.norm(q[:3])
    a = 2 * math.atan2(s, q[3])
    want = R(q[:3] / s, a) if s > 1e-12 else np.eye(3)
    close(mu.quaternionToMatrix(q.tolist()), want, 1e-9, 'rotation of (x, y, z, w)')
    close(mu.quaternionToMatrix((-q).tolist()), want, 1e-9, 'opposite quaternion')
    ctx.nontrivial(np.count_nonzero(q) == 4)


if __name__ == '__main__':
    sys.exit(main())
