"""C01-C08: rotation matrices, quaternions, Euler angles, interpolation, screw matrix."""
import math

from symx.reg import scenario
from symx.env import quatR

QS = [0, 1]


def rodrigues(np, k, c, s):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return c * np.eye(3) + s * K + (1 - c) * np.outer(k, k)


def rotation(env, R, label):
    """Rotation matrix through the quaternion message and back."""
    np = env.np
    env.eq(np.matmul(R, R.T), np.eye(3), label + ': orthonormal')
    a, b, c = R[0], R[1], R[2]
    det = (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))
    env.eq(det, 1, label + ': determinant')


def cross(np, a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def shaped(env, v, kind):
    """The same vector in the container shapes callers use."""
    np = env.np
    if kind == 'list':
        return [v[0], v[1], v[2]]
    if kind == 'tuple':
        return (v[0], v[1], v[2])
    if kind == 'column':
        return np.reshape(v, (3, 1))
    return v


# ---------------------------------------------------------------- C01
@scenario('C01', over=[{'kind': k} for k in ('array', 'list', 'tuple', 'column')])
def rot_is_rotation(env, kind):
    """The matrix is orthogonal with determinant one, fixes the axis and turns a perpendicular vector in the right-handed sense."""
    np = env.np
    k, th = env.unit3('k'), env.angle('th')
    R = env.rox.rot(shaped(env, k, kind), th)
    env.eq(R, rodrigues(np, k, np.cos(th), np.sin(th)), 'axis-angle formula')
    rotation(env, R, 'rot')
    env.eq(np.matmul(R, k), k, 'axis is fixed')
    env.eq(np.trace(R), 1 + 2 * np.cos(th), 'trace')


@scenario('C01')
def rot_group(env):
    """Angles about one axis add up, the negative angle is the transpose, a reversed axis reverses the angle, full turns do nothing."""
    np, rox = env.np, env.rox
    k, a, b = env.unit3('k'), env.angle('a'), env.angle('b')
    env.eq(np.matmul(rox.rot(k, a), rox.rot(k, b)), rox.rot(k, a + b), 'angles add')
    env.eq(rox.rot(k, -a), rox.rot(k, a).T, 'inverse is transpose')
    env.eq(rox.rot(-k, a), rox.rot(k, -a), 'reversed axis')
    env.eq(rox.rot(k, a + 2 * env.pi), rox.rot(k, a), 'full turn')


@scenario('C01', over=[{'kind': k} for k in ('array', 'list', 'column')])
def hat_cross(env, kind):
    """The skew-symmetric matrix of a vector is the cross product with it and gives the vector back."""
    np, rox = env.np, env.rox
    a, b = env.vec('a'), env.vec('b')
    A = rox.hat(shaped(env, a, kind))
    env.eq(A, np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]), 'hat')
    env.eq(np.matmul(A, b), cross(np, a, b), 'hat(a) b = a x b')
    env.eq(A + A.T, np.zeros((3, 3)), 'skew')
    env.eq(np.reshape(rox.invhat(A), (3,)), a, 'invhat inverts hat')


@scenario('C01')
def invhat_general(env):
    """Extraction of the vector from an arbitrary matrix."""
    np, rox = env.np, env.rox
    M = np.array([[env.real('m%d%d' % (i, j)) for j in range(3)] for i in range(3)])
    v = rox.invhat(M)
    env.eq(rox.hat(v), (M - M.T) / 2, 'invhat takes the skew part')


# ---------------------------------------------------------------- C02
@scenario('C02', budget=60)
def r2rot_generic(env):
    """Away from the identity and half turns."""
    np, rox = env.np, env.rox
    k, th = env.unit3('k'), env.angle('th')
    c, s = np.cos(th), np.sin(th)
    env.assume(env.Or(s >= 1e-5, s <= -1e-5))
    R = rodrigues(np, k, c, s)
    k2, t2 = rox.R2rot(R)
    k2 = np.array(k2)
    env.eq(rodrigues(np, k2, np.cos(t2), np.sin(t2)), R, 'round trip')
    env.eq(k2[0] * k2[0] + k2[1] * k2[1] + k2[2] * k2[2], 1, 'unit axis')
    env.require(t2 >= 0, 'angle not negative')
    env.require(t2 <= env.pi + 1e-12, 'angle at most pi')


@scenario('C02', over=[{'z': z} for z in ('none', '0', '1', '2', '01', '02', '12')], budget=60, npts=60)
def r2rot_half_turn(env, z):
    """Half turns, split by which components of the axis vanish."""
    np, rox = env.np, env.rox
    k = env.unit3('k')
    for i in range(3):
        if str(i) in z:
            env.assume(k[i] == 0)
    R = 2 * np.outer(k, k) - np.eye(3)
    k2, t2 = rox.R2rot(R)
    k2 = np.array(k2)
    env.eq(rodrigues(np, k2, np.cos(t2), np.sin(t2)), R, 'round trip at a half turn')
    env.eq(k2[0] * k2[0] + k2[1] * k2[1] + k2[2] * k2[2], 1, 'unit axis')
    env.eq(np.cos(t2), -1, 'angle is pi')


def rebuilt(env, q, tol):
    np = env.np
    R = quatR(np, q)
    k2, t2 = env.rox.R2rot(R)
    k2 = np.array(k2)
    D = rodrigues(np, k2, np.cos(t2), np.sin(t2)) - R
    for i in range(3):
        for j in range(3):
            env.require(env.And(D[i, j] <= tol, D[i, j] >= -tol), 'round trip close to a half turn')
    n = np.dot(k2, k2) - 1
    env.require(env.And(n <= 1e-9, n >= -1e-9), 'unit axis')


@scenario('C02', over=[dict(w=w) for w in (4e-7, -4e-7, 2e-7, 1e-8)], budget=40, goal_ms=10000)
def r2rot_near_half_turn(env, w):
    """Almost a half turn."""
    v = env.unit3('v')
    # of unit length up to rounding
    s = math.sqrt(1 - w * w)
    rebuilt(env, env.np.array([w, s * v[0], s * v[1], s * v[2]]), 5e-5)


@scenario('C02', over=[dict(at=a, w=w, a=x, b=y) for a in range(3) for w in (4e-7, -1e-7) for x, y in ((.6, .8), (-.8, .6), (.01, .99995))])
def r2rot_near_half_turn_small(env, at, w, a, b):
    """... where the sine and one component of the axis are of the same size."""
    s = math.sqrt(1 - w * w)
    v = [s * a, s * b]
    v.insert(at, env.real('x', lo=-5e-6, hi=5e-6))
    # of unit length up to a rounding error
    rebuilt(env, env.np.array([w] + v), 5e-6)


@scenario('C02')
def r2rot_identity(env):
    """The identity: a unit axis and angle zero."""
    np, rox = env.np, env.rox
    k2, t2 = rox.R2rot(np.eye(3))
    k2 = np.array(k2)
    env.eq(t2, 0, 'no rotation')
    env.eq(np.dot(k2, k2), 1, 'unit axis')


@scenario('C02')
def r2rot_rot(env):
    """Through the library's own rot; angle in (0, pi): recovers axis and angle exactly."""
    np, rox = env.np, env.rox
    k, th = env.unit3('k'), env.angle('th', lo=0, hi=3.141)
    env.assume(th >= 1e-4)
    env.assume(np.sin(th) >= 1e-5)
    k2, t2 = rox.R2rot(rox.rot(k, th))
    env.eq(np.array(k2), k, 'axis')
    env.same_angle(t2, th, 'angle')


@scenario('C02', noise=1e-15, npts=60, over=[{'z': z} for z in ('none', '0', '1', '2', '01', '02', '12')])
def r2rot_half_turn_finite(env, z):
    """Rounding noise on the matrix entries never produces a non-finite axis."""
    np, rox = env.np, env.rox
    k = env.unit3('k')
    for i in range(3):
        if str(i) in z:
            env.assume(k[i] == 0)
    N = np.array([[env.real('e%d%d' % (i, j), lo=-2e-16, hi=2e-16) for j in range(3)] for i in range(3)])
    R = 2 * np.outer(k, k) - np.eye(3) + N
    k2, t2 = rox.R2rot(R)
    env.finite(np.array(k2), 'axis')
    env.finite(t2, 'angle')


# ---------------------------------------------------------------- C03
@scenario('C03')
def q2R_rotation(env):
    """Conventional meaning of a unit quaternion."""
    np, rox = env.np, env.rox
    q = env.unitquat('q')
    R = rox.q2R(q)
    env.eq(R, quatR(np, q), 'rotation of the quaternion')
    rotation(env, R, 'q2R')
    env.eq(rox.q2R(-q), R, 'double cover')


@scenario('C03', budget=60)
def R2q_roundtrip(env):
    """Matrix to quaternion and back, whichever component is largest."""
    np, rox = env.np, env.rox
    q = env.unitquat('q')
    R = quatR(np, q)
    p = rox.R2q(R)
    env.eq(np.outer(p, p), np.outer(q, q), 'same quaternion up to sign')
    env.eq(np.dot(p, p), 1, 'unit')
    env.eq(rox.q2R(p), R, 'q2R(R2q(R)) = R')


@scenario('C03', budget=60, over=[{'z': z} for z in ('w', 'wx', 'wy', 'wz', 'x', 'xy', 'xyz')])
def R2q_degenerate(env, z):
    """Half turns and axis-aligned rotations, where the branches meet."""
    np, rox = env.np, env.rox
    q = env.unitquat('q')
    for ch in z:
        env.assume(q['wxyz'.index(ch)] == 0)
    R = quatR(np, q)
    p = rox.R2q(R)
    env.eq(np.outer(p, p), np.outer(q, q), 'same quaternion up to sign')


@scenario('C03', over=[dict(what=w) for w in ('random_R', 'random_transform')])
def random_orientation(env, what):
    """Random orientations are orientations, whatever the generator draws."""
    np, rox = env.np, env.rox
    q = [env.real('q%d' % i, lo=0, hi=0.999) for i in range(4)]
    env.assume(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] >= 0.01)
    p = [env.real('p%d' % i, lo=0, hi=0.999) for i in range(3)]
    draws = [np.array(q), np.array(p)]
    saved = np.random.rand

    def rand(*shape):
        for i, d in enumerate(draws):
            if np.shape(d) == shape:
                return np.array(draws.pop(i))
        return saved(*shape)
    np.random.rand = rand
    try:
        X = rox.random_R() if what == 'random_R' else rox.random_transform()
    finally:
        np.random.rand = saved
    R = X if what == 'random_R' else X.R
    env.eq(np.matmul(R, R.T), np.eye(3), 'orthogonal')
    env.eq(np.dot(R[:, 0], np.cross(R[:, 1], R[:, 2])), 1, 'right-handed')
    if what == 'random_transform':
        env.require(np.shape(X.p) == (3,), 'position')
        env.finite(X.p, 'position')
        env.require(X.parent_frame_id is None and X.child_frame_id is None, 'no frame names')


# ---------------------------------------------------------------- C04
@scenario('C04')
def quat_product(env):
    """Product of unit quaternions is the composition of the rotations; the complement reverses."""
    np, rox = env.np, env.rox
    q, p = env.unitquat('q'), env.unitquat('p')
    r = np.matmul(rox.quatproduct(q), p)
    env.eq(quatR(np, r), np.matmul(quatR(np, q), quatR(np, p)), 'product is composition')
    env.eq(np.dot(r, r), 1, 'unit')
    c = rox.quatcomplement(q)
    env.eq(quatR(np, c), quatR(np, q).T, 'complement is inverse rotation')
    env.eq(np.matmul(rox.quatproduct(q), c), np.array([1, 0, 0, 0]), 'q * complement(q) = 1')


@scenario('C04')
def quat_product_general(env):
    """The Hamilton product of arbitrary (non-unit) quaternions."""
    np, rox = env.np, env.rox
    a, b = env.vec('a', 4), env.vec('b', 4)
    v, w = a[1:4], b[1:4]
    r = np.matmul(rox.quatproduct(a), b)
    env.eq(r[0], a[0] * b[0] - np.dot(v, w), 'scalar part')
    env.eq(r[1:4], a[0] * w + b[0] * v + cross(np, v, w), 'vector part')
    c = rox.quatcomplement(a)
    env.eq(c, np.array([a[0], -a[1], -a[2], -a[3]]), 'complement')


@scenario('C04')
def quat_jacobian(env):
    """qdot = J(q) w is the rate of the quaternion of a body turning with angular velocity w in the base frame."""
    np, rox = env.np, env.rox
    q, w = env.unitquat('q'), env.vec('w')
    J = rox.quatjacobian(q)
    qd = np.matmul(J, w)
    ref = np.matmul(rox.quatproduct(np.concatenate((np.array([0]), w))), q) / 2
    env.eq(qd, ref, 'qdot = 1/2 w*q')
    env.eq(np.dot(q, qd), 0, 'stays unit')


# ---------------------------------------------------------------- C05
@scenario('C05', over=[{'kind': k} for k in ('array', 'column')])
def rot2q_formula(env, kind):
    """cos and sin of half the angle; array or list axis."""
    np, rox = env.np, env.rox
    k, th = env.unit3('k'), env.angle('th', d=2)
    q = rox.rot2q(shaped(env, k, kind), th)
    env.eq(quatR(np, q), rodrigues(np, k, np.cos(th), np.sin(th)), 'same rotation')
    env.eq(np.dot(q, q), 1, 'unit')


@scenario('C05')
def q2rot_roundtrip(env):
    """Quaternion to axis-angle gives a unit axis and an angle of the same rotation."""
    np, rox = env.np, env.rox
    q = env.unitquat('q')
    v2 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    env.assume(v2 >= 1e-12)
    k, th = rox.q2rot(q)
    env.eq(rodrigues(np, k, np.cos(th), np.sin(th)), quatR(np, q), 'same rotation')
    env.eq(np.dot(k, k), 1, 'unit axis')


@scenario('C05', over=[{'w': 1}, {'w': -1}])
def q2rot_identity(env, w):
    """Both quaternions of the identity."""
    np, rox = env.np, env.rox
    k, th = rox.q2rot(np.array([w, 0, 0, 0]))
    k = np.array(k)
    env.eq(rodrigues(np, k, np.cos(th), np.sin(th)), np.eye(3), 'identity rotation')
    env.eq(np.dot(k, k), 1, 'unit axis')


@scenario('C05')
def q2rot_rot2q(env):
    """Both conversions one after the other."""
    np, rox = env.np, env.rox
    k, th = env.unit3('k'), env.angle('th', d=2)
    env.assume(env.Or(np.sin(th / 2) >= 1e-6, np.sin(th / 2) <= -1e-6))
    k2, t2 = rox.q2rot(rox.rot2q(k, th))
    env.eq(rodrigues(np, k2, np.cos(t2), np.sin(t2)), rodrigues(np, k, np.cos(th), np.sin(th)), 'round trip')


@scenario('C05', npts=60)
def q2rot_rounding(env):
    """Rounding in the quaternion (here of its scalar part) leaves the axis a unit vector and the rotation the same, for small rotations too."""
    np, rox = env.np, env.rox
    k, th = env.unit3('k'), env.angle('th', d=2)
    s, c = np.sin(th / 2), np.cos(th / 2)
    env.assume(env.Or(s >= 1e-6, s <= -1e-6))
    e = env.real('e', lo=-1, hi=1)
    q = np.array([c + e * 1e-15, k[0] * s, k[1] * s, k[2] * s])
    k2, t2 = rox.q2rot(q)
    n = np.dot(k2, k2)
    env.require(env.And(n <= 1 + 1e-7, n >= 1 - 1e-7), 'unit axis')
    v = np.sin(t2 / 2) * np.sin(t2 / 2)
    env.require(env.And(v <= s * s + 1e-12, v >= s * s - 1e-12), 'same angle')


# ---------------------------------------------------------------- C06
def rx(np, c, s):
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(np, c, s):
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(np, c, s):
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


@scenario('C06', over=[{'kind': k} for k in ('array', 'list', 'tuple')])
def rpy2R_formula(env, kind):
    """Rz(yaw) Ry(pitch) Rx(roll) for each container of the angles."""
    np, rox = env.np, env.rox
    r, p, y = env.angle('r'), env.angle('p'), env.angle('y')
    v = {'array': np.array([r, p, y]), 'list': [r, p, y], 'tuple': (r, p, y)}[kind]
    R = rox.rpy2R(v)
    env.eq(R, np.matmul(rz(np, np.cos(y), np.sin(y)), np.matmul(ry(np, np.cos(p), np.sin(p)), rx(np, np.cos(r), np.sin(r)))), 'Rz Ry Rx')
    rotation(env, R, 'rpy2R')


@scenario('C06', budget=60)
def R2rpy_roundtrip(env):
    """The angles of any rotation away from gimbal lock rebuild it."""
    np, rox = env.np, env.rox
    r, p, y = env.angle('r'), env.angle('p'), env.angle('y')
    env.assume(env.Or(np.cos(p) >= 1e-5, np.cos(p) <= -1e-5))
    R = np.matmul(rz(np, np.cos(y), np.sin(y)), np.matmul(ry(np, np.cos(p), np.sin(p)), rx(np, np.cos(r), np.sin(r))))
    r2, p2, y2 = rox.R2rpy(R)
    env.eq(np.matmul(rz(np, np.cos(y2), np.sin(y2)), np.matmul(ry(np, np.cos(p2), np.sin(p2)), rx(np, np.cos(r2), np.sin(r2)))), R, 'round trip')
    env.require(np.cos(p2) >= 0, 'pitch within a quarter turn')


@scenario('C06', budget=60)
def R2rpy_recovers(env):
    """The original angles are recovered for pitch within a quarter turn."""
    np, rox = env.np, env.rox
    r, p, y = env.angle('r'), env.angle('p', lo=-1.57, hi=1.57), env.angle('y')
    env.assume(np.cos(p) >= 1e-5)
    r2, p2, y2 = rox.R2rpy(rox.rpy2R(np.array([r, p, y])))
    env.same_angle(r2, r, 'roll')
    env.same_angle(p2, p, 'pitch')
    env.same_angle(y2, y, 'yaw')


@scenario('C06', over=[{'s': 1}, {'s': -1}])
def R2rpy_gimbal(env, s):
    """At gimbal lock the conversion must refuse."""
    np, rox = env.np, env.rox
    r, y = env.angle('r'), env.angle('y')
    R = np.matmul(rz(np, np.cos(y), np.sin(y)), np.matmul(ry(np, 0, s), rx(np, np.cos(r), np.sin(r))))
    try:
        rox.R2rpy(R)
    except (AssertionError, ValueError):
        env.require(True, 'refused')
    else:
        env.fail('gimbal lock was not refused')


@scenario('C06', over=[{'s': 1}, {'s': -1}], budget=60)
def R2rpy_gimbal_rounded(env, s):
    """... also when rounding leaves the vanishing entries at up to 1e-16."""
    np, rox = env.np, env.rox
    r, y = env.angle('r'), env.angle('y')
    R = np.matmul(rz(np, np.cos(y), np.sin(y)), np.matmul(ry(np, 0, s), rx(np, np.cos(r), np.sin(r))))
    for i, j in ((0, 0), (1, 0), (2, 1), (2, 2)):
        R[i, j] = env.real('e%d%d' % (i, j), lo=-1e-16, hi=1e-16, samples=(0, 1e-16, -6e-17))
    try:
        rox.R2rpy(R)
    except (AssertionError, ValueError):
        env.require(True, 'refused')
    else:
        env.fail('gimbal lock was not refused')


# ---------------------------------------------------------------- C07
def pair_at(env, d=1, lo=0, hi=None):
    """Two unit quaternions at angle th: q1 = cos th q0 + sin th (q0 * (0,n))."""
    np = env.np
    q0 = env.unitquat('q')
    n = env.unit3('n')
    th = env.angle('th', d=d, lo=lo, hi=hi)
    w, v = q0[0], q0[1:4]
    m = np.concatenate((np.array([-np.dot(v, n)]), w * n + cross(np, v, n)))
    return q0, m, th


@scenario('C07', over=[{'t': t, 'far': f} for t in (0, 0.25, 0.5, 0.75, 1) for f in (0, 1)], budget=60)
def slerp_angle(env, t, far):
    """Interpolated orientation: unit, at angle t*theta from the start, in the plane of both, along the shorter arc."""
    np, rox = env.np, env.rox
    q0, m, th = pair_at(env, d=4, lo=0, hi=1.5707)
    env.assume(np.sin(th / 4) >= 1e-4)
    c, s = np.cos(th), np.sin(th)
    env.assume(c > 0)
    q1 = c * q0 + s * m
    start = -q0 if far else q0
    q = rox.slerp(start, q1, t)
    ct, st = np.cos(t * th), np.sin(t * th)
    ref = ct * q0 + st * m
    env.eq(np.outer(q, q), np.outer(ref, ref), 'shortest-arc interpolation')
    env.eq(np.dot(q, q), 1, 'unit')


@scenario('C07', budget=60)
def slerp_any_t(env):
    """Any fraction at all, between quaternions less than a quarter turn apart."""
    np, rox = env.np, env.rox
    q0, m, th = pair_at(env, d=2, lo=0, hi=1.5707)
    t = env.real('t', lo=0, hi=1)
    env.assume(np.sin(th / 2) >= 1e-4)
    c, s = np.cos(th), np.sin(th)
    env.assume(c > 0)
    q = rox.slerp(q0, c * q0 + s * m, t)
    ref = np.cos(t * th) * q0 + np.sin(t * th) * m
    env.eq(np.outer(q, q), np.outer(ref, ref), 'shortest-arc interpolation')


@scenario('C07', budget=60)
def slerp_symmetric_scale(env):
    """Not affected by the lengths of its arguments."""
    np, rox = env.np, env.rox
    f, g = env.real('f', lo=1e-3, hi=1e3), env.real('g', lo=1e-3, hi=1e3)
    q0, m, th = pair_at(env, d=4, lo=0, hi=1.5707)
    env.assume(np.sin(th / 4) >= 1e-4)
    env.assume(np.cos(th) > 0)
    q1 = np.cos(th) * q0 + np.sin(th) * m
    a = rox.slerp(f * q0, q1 * g, 0.5)
    ref = np.cos(th / 2) * q0 + np.sin(th / 2) * m
    env.eq(np.outer(a, a), np.outer(ref, ref), 'scale')


@scenario('C07')
def slerp_range(env):
    """Fractions outside [0, 1] are refused."""
    np, rox = env.np, env.rox
    t = env.real('t', samples=[0, 1, -0.5, 1.5])
    q0, q1 = np.array([1, 0, 0, 0]), np.array([0.8, 0.6, 0, 0])
    env.assume(env.Or(t < 0, t > 1))
    try:
        rox.slerp(q0, q1, t)
    except (AssertionError, ValueError):
        env.require(True, 'refused')
    else:
        env.fail('t outside [0,1] accepted')


@scenario('C07')
def slerp_same(env):
    """Interpolating between equal orientations stays there."""
    np, rox = env.np, env.rox
    q = env.unitquat('q')
    for t in (0, 0.3, 1):
        r = rox.slerp(q, q, t)
        env.eq(np.outer(r, r), np.outer(q, q), 'same orientation')
        r = rox.slerp(q, -q, t)
        env.eq(np.outer(r, r), np.outer(q, q), 'same orientation, opposite sign')


@scenario('C07', noise=1e-15, over=[{'c': 0}, {'c': 1}, {'c': -1}], npts=60)
def slerp_finite(env, c):
    """Rounding noise never makes the result non-finite."""
    np, rox = env.np, env.rox
    if c:
        q = env.unitquat('q')
        p = c * q
    else:
        q, m, th = pair_at(env, d=4, lo=0, hi=3.1415)
        env.assume(th >= 0.001)
        env.assume(np.sin(th / 2) >= 0.0004)
        p = np.cos(th) * q + np.sin(th) * m
    r = rox.slerp(q, p, 0.5)
    env.finite(r, 'result')


# ---------------------------------------------------------------- C08
@scenario('C08', over=[{'kind': k} for k in ('array', 'list', 'column')])
def screw(env, kind):
    """Shift of twists and wrenches, power, and sums of displacements."""
    np, rox = env.np, env.rox
    r, w, v, tau, f = env.vec('r'), env.vec('w'), env.vec('v'), env.vec('tau'), env.vec('f')
    G = rox.screw_matrix(shaped(env, r, kind))
    tw2 = np.matmul(G.T, np.concatenate((w, v)))
    env.eq(tw2, np.concatenate((w, v + cross(np, w, r))), 'velocity of a point of the body')
    wr1 = np.matmul(G, np.concatenate((tau, f)))
    env.eq(wr1, np.concatenate((tau + cross(np, r, f), f)), 'wrench about another point')
    env.eq(np.dot(np.concatenate((w, v)), wr1), np.dot(tw2, np.concatenate((tau, f))), 'power is invariant')
    r2 = env.vec('s')
    env.eq(np.matmul(G, rox.screw_matrix(r2)), rox.screw_matrix(r + r2), 'displacements add')
    env.eq(np.matmul(G, rox.screw_matrix(-r)), np.eye(6), 'inverse')
