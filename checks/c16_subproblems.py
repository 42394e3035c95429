"""C16-C19: the canonical geometric subproblems."""
from symx.reg import scenario
from symx.env import quatR
from checks.c09_model import rodrigues, cross, AX


def Rk(env, k, th):
    return rodrigues(env.np, k, env.np.cos(th), env.np.sin(th))


def band(env, x, eps=1e-4):
    """x is exactly zero or clearly away from zero."""
    env.assume(env.Or(x == 0, x >= eps, x <= -eps))


def away(env, x, eps=1e-4):
    env.assume(env.Or(x >= eps, x <= -eps))


def dirvec(env, name):
    """Unit axis choices with exact components: the signed coordinate axes and some oblique ones."""
    return {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), 'X': (-1, 0, 0), 'Y': (0, -1, 0), 'Z': (0, 0, -1),
            'p': (40 / 401., 0, 399 / 401.), 'P': (0, 40 / 401., -399 / 401.), 'r': (200 / 10001., 0, 9999 / 10001.),
            'a': (0.6, 0, 0.8), 'b': (0, -0.6, 0.8), 'c': (2 / 3., 1 / 3., 2 / 3.), 'd': (0.8, 0.6, 0)}[name]


def fvec(env, name):
    """The axis as an exact vector in the symbolic run."""
    from fractions import Fraction as Fr
    v = dirvec(env, name)
    if env.symbolic:
        v = [Fr(x).limit_denominator(20000) for x in v]
        return env.array([env.const(x) for x in v])
    return env.array(v)


def contract1(env):
    """subproblem1 replaced by its specification (C16 decides that the code meets it): the signed angle about k from p to q."""
    if not env.symbolic:
        return
    np = env.np

    def sp1(p, q, k):
        p, q, k = [np.reshape(np.array(x), (3,)) for x in (p, q, k)]
        pk, qk = np.dot(p, k), np.dot(q, k)
        c = np.dot(p, q) - pk * qk
        s = np.dot(k, cross(np, p, q))
        pp = np.dot(p, p) - pk * pk
        qp = np.dot(q, q) - qk * qk
        if bool(pp == 0) or bool(qp == 0):
            return env.const(0)
        if (pp - qp).iszero():
            return env.angle_of(c / pp, s / pp)
        return np.arctan2(s, c)
    core = env.mod('general_robotics_toolbox')
    core.subproblem1 = sp1
    env.rox.subproblem1 = sp1


# ---------------------------------------------------------------- C16
@scenario('C16', budget=60)
def sp0(env):
    """The angle between two perpendicular vectors, with its sign."""
    np, rox = env.np, env.rox
    F = env.frame('F')
    a, b = env.real('a', lo=1e-3, hi=1e3), env.real('b', lo=1e-3, hi=1e3)
    th = env.angle('th', d=2, lo=-3.14, hi=3.14)
    k, u, w = F[:, 2], F[:, 0], F[:, 1]
    p, q = a * u, b * (np.cos(th) * u + np.sin(th) * w)
    t = rox.subproblem0(p, q, k)
    env.same_angle(t, th, 'angle from p to q about k')
    env.require(env.And(t >= -env.pi - 1e-12, t <= env.pi + 1e-12), 'principal value')


@scenario('C16', over=[dict(which=w, sign=s) for w in 'pq' for s in (1, -1)], budget=60)
def sp0_refuses(env, which, sign):
    """Vectors that are not perpendicular to the axis are refused, whichever side they lean to."""
    np, rox = env.np, env.rox
    F = env.frame('F')
    h = env.real('h', lo=1e-4, hi=10)
    a, b = env.real('a', lo=0.01, hi=10), env.real('b', lo=0.01, hi=10)
    k, u, w = F[:, 2], F[:, 0], F[:, 1]
    p, q = a * u, b * w
    if which == 'p':
        p = p + sign * h * k
    else:
        q = q + sign * h * k
    try:
        rox.subproblem0(p, q, k)
    except (AssertionError, ValueError):
        env.require(True, 'refused')
    else:
        env.fail('not refused')


@scenario('C16', budget=60, over=[dict(kind=k) for k in ('array', 'list')])
def sp1(env, kind):
    """The angle from one vector to its turned copy, with any offset along the axis."""
    np, rox = env.np, env.rox
    F = env.frame('F')
    a, h = env.real('a', lo=1e-2, hi=1e3), env.real('h', lo=-1e3, hi=1e3)
    th = env.angle('th', d=2)
    band(env, np.sin(th / 2), 1e-6)
    k, u, w = F[:, 2], F[:, 0], F[:, 1]
    p = h * k + a * u
    q = h * k + a * (np.cos(th) * u + np.sin(th) * w)
    if kind == 'list':
        p, q = list(p), list(q)
    t = rox.subproblem1(p, q, k)
    env.same_angle(t, th, 'angle from p to q about k')
    env.eq(np.matmul(Rk(env, k, t), np.array(p)), np.array(q), 'rot(k,t) p = q')


@scenario('C16', budget=60)
def sp1_axis_length(env):
    """The axis may be given with any positive length."""
    np, rox = env.np, env.rox
    F = env.frame('F')
    a, h, s = env.real('a', lo=1e-2, hi=1e3), env.real('h', lo=-10, hi=10), env.real('s', lo=0.01, hi=100)
    th = env.angle('th', d=2)
    band(env, np.sin(th / 2), 1e-6)
    k, u, w = F[:, 2], F[:, 0], F[:, 1]
    t = rox.subproblem1(h * k + a * u, h * k + a * (np.cos(th) * u + np.sin(th) * w), s * k)
    env.same_angle(t, th, 'angle from p to q about k')


@scenario('C16')
def sp1_on_axis(env):
    """Vectors on the axis: every angle is right; the answer must be finite."""
    np, rox = env.np, env.rox
    F = env.frame('F')
    h = env.real('h', lo=0.1, hi=10)
    k = F[:, 2]
    t = rox.subproblem1(h * k, h * k, k)
    env.finite(t, 'angle')


@scenario('C16', npts=40)
def sp0_rounding(env):
    """A rounding-sized component along the axis does not make valid vectors refused."""
    np, rox = env.np, env.rox
    a, b, th = env.real('a', lo=0.01, hi=100), env.real('b', lo=0.01, hi=100), env.angle('th', d=2)
    e, f = env.real('e', lo=-1, hi=1), env.real('f', lo=-1, hi=1)
    F = env.frame('F')
    k, u, w = F[:, 2], F[:, 0], F[:, 1]
    eps = 5e-15
    t = rox.subproblem0(a * u + a * e * eps * k, b * (np.cos(th) * u + np.sin(th) * w) + b * f * eps * k, k)
    env.finite(t, 'angle')


# ---------------------------------------------------------------- C17
PAIRS = ['zy', 'zx', 'yx', 'za', 'Zy', 'xz', 'zY', 'yb', 'yz', 'zp', 'zP', 'zr']


def both(env, r, th1, th2, np):
    return env.Or(*[env.And(env.Same(x[0], th1), env.Same(x[1], th2)) for x in r])


@scenario('C17', over=[dict(ax=a) for a in PAIRS], budget=60, fork_ms=1500)
def sp2_solves(env, ax):
    """q reachable from p: solutions exist, all of them map p to q, and the generating pair is among them."""
    np, rox = env.np, env.rox
    contract1(env)
    k1, k2 = fvec(env, ax[0]), fvec(env, ax[1])
    c = env.vec('c', 3, lo=-10, hi=10)
    t1, t2 = env.angle('t1'), env.angle('t2')
    n = cross(np, k1, k2)
    m = np.dot(c, n)
    band(env, m, 1e-5)
    # away from the axes, where an angle is arbitrary
    for k in (k1, k2):
        x = cross(np, k, c)
        env.assume(np.dot(x, x) >= 1e-8)
    p = np.matmul(Rk(env, k2, -t2), c)
    q = np.matmul(Rk(env, k1, t1), c)
    r = rox.subproblem2(p, q, k1, k2)
    env.require(len(r) > 0, 'a solution exists')
    for a, b in r:
        env.eq(np.matmul(Rk(env, k1, a), np.matmul(Rk(env, k2, b), p)), q, 'maps p to q')
    env.require(env.Or(*[env.And(env.Same(a, t1), env.Same(b, t2)) for a, b in r]), 'contains the generating angles')


@scenario('C17', over=[dict(ax=a) for a in PAIRS[:5]], budget=60, fork_ms=1500)
def sp2_tangent(env, ax):
    """The two cones touch: exactly the one generating pair."""
    np, rox = env.np, env.rox
    contract1(env)
    k1, k2 = fvec(env, ax[0]), fvec(env, ax[1])
    x, y = env.real('x', lo=-10, hi=10), env.real('y', lo=-10, hi=10)
    t1, t2 = env.angle('t1'), env.angle('t2')
    away(env, x, 1e-4)
    away(env, y, 1e-4)
    c = x * k1 + y * k2
    p = np.matmul(Rk(env, k2, -t2), c)
    q = np.matmul(Rk(env, k1, t1), c)
    r = rox.subproblem2(p, q, k1, k2)
    env.require(len(r) > 0, 'a solution exists')
    # rounding may leave two pairs 1e-8 apart, but the same pair is not listed twice
    env.require(len(r) == 1 or not env.symbolic and any(abs(a - b) > 1e-12 for a, b in zip(r[0], r[1])), 'one pair')
    for a, b in r:
        env.eq(np.matmul(Rk(env, k1, a), np.matmul(Rk(env, k2, b), p)), q, 'maps p to q')


@scenario('C17', over=[dict(ax=a, on=o) for a in PAIRS[:4] for o in (1, 2)], budget=60)
def sp2_on_axis(env, ax, on):
    """The intermediate vector lies on one of the axes (a wrist singularity): still solved."""
    np, rox = env.np, env.rox
    contract1(env)
    k1, k2 = fvec(env, ax[0]), fvec(env, ax[1])
    s = env.real('s', lo=0.01, hi=10)
    t1, t2 = env.angle('t1'), env.angle('t2')
    c = s * (k1 if on == 1 else k2)
    p = np.matmul(Rk(env, k2, -t2), c)
    q = np.matmul(Rk(env, k1, t1), c)
    r = rox.subproblem2(p, q, k1, k2)
    env.require(len(r) > 0, 'a solution exists')
    for a, b in r:
        env.eq(np.matmul(Rk(env, k1, a), np.matmul(Rk(env, k2, b), p)), q, 'maps p to q')


@scenario('C17', over=[dict(ax=a) for a in ('zy', 'zx', 'yx', 'Zy')], budget=60, goal_ms=8000)
def sp2_sound(env, ax):
    """Any p and q of equal length: whatever is returned maps p to q, and nothing is returned only if no angles do."""
    np, rox = env.np, env.rox
    contract1(env)
    k1, k2 = fvec(env, ax[0]), fvec(env, ax[1])
    p, q = env.unit3('p'), env.unit3('q')
    k12 = np.dot(k1, k2)
    # cone intersection: squared length of the component along k1 x k2
    D = 1 - k12 * k12
    a0 = (np.dot(q, k1) - k12 * np.dot(p, k2)) / D
    a1 = (np.dot(p, k2) - k12 * np.dot(q, k1)) / D
    g = 1 - (a0 * a0 + a1 * a1 + 2 * a0 * a1 * k12)
    env.assume(env.Or(g >= 1e-7, g <= -1e-7))
    for v, k in ((p, k2), (q, k1)):
        x = cross(np, k, v)
        env.assume(np.dot(x, x) >= 1e-8)
    r = rox.subproblem2(p, q, k1, k2)
    if len(r) == 0:
        env.require(g < 0, 'refused only when the cones do not meet')
    else:
        env.require(g > 0, 'solved only when the cones meet')
        env.require(len(r) == 2, 'two solutions')
    for a, b in r:
        env.eq(np.matmul(Rk(env, k1, a), np.matmul(Rk(env, k2, b), p)), q, 'maps p to q')


@scenario('C17', over=[dict(s=1), dict(s=-1)])
def sp2_parallel(env, s):
    """Parallel axes have no solution pair: empty, not an error."""
    np, rox = env.np, env.rox
    k = env.unit3('k')
    r = rox.subproblem2(env.vec('p'), env.vec('q'), k, s * k)
    env.require(len(r) == 0, 'empty')


def axispair(env, kind, lo=0.1):
    """Two axes at any angle: in a fixed frame, or in any frame."""
    np = env.np
    sg = env.real('sg', lo=lo, hi=1)
    cg = env.choice('side', (1, -1)) * np.sqrt(1 - sg * sg)
    if kind == 'any':
        F = env.frame('F')
        return F[:, 2], cg * F[:, 2] + sg * F[:, 0], F[:, 1]
    return env.array([0, 0, 1]), env.array([sg, 0, cg]), env.array([0, 1, 0])


@scenario('C17', over=[dict(kind='fixed')], budget=60)
def sp2_exists_any(env, kind):
    """For every pair of axes at 0.001 rad or more from parallel: a reachable vector is not reported unreachable."""
    np, rox = env.np, env.rox
    contract1(env)
    k1, k2, n = axispair(env, kind, 0.001)
    x, y, m = env.real('x', lo=-2, hi=2), env.real('y', lo=-2, hi=2), env.real('m', lo=0.001, hi=2)
    c = x * k1 + y * k2 + m * n
    r = rox.subproblem2(c, c, k1, k2)
    env.require(len(r) > 0, 'a solution exists')


@scenario('C17', over=[], thorough_over=[dict(kind='fixed')], budget=60)
def sp2_solves_any(env, kind):
    """As above, for every pair of axes at 0.1 to 3.04 rad."""
    np, rox = env.np, env.rox
    contract1(env)
    k1, k2, n = axispair(env, kind)
    c = env.vec('c', 3, lo=-10, hi=10)
    t1, t2 = env.angle('t1'), env.angle('t2')
    m = np.dot(c, n)
    band(env, m, 1e-5)
    for k in (k1, k2):
        x = cross(np, k, c)
        env.assume(np.dot(x, x) >= 1e-8)
    p = np.matmul(Rk(env, k2, -t2), c)
    q = np.matmul(Rk(env, k1, t1), c)
    r = rox.subproblem2(p, q, k1, k2)
    env.require(len(r) > 0, 'a solution exists')
    for a, b in r:
        env.eq(np.matmul(Rk(env, k1, a), np.matmul(Rk(env, k2, b), p)), q, 'maps p to q')
    env.require(env.Or(*[env.And(env.Same(a, t1), env.Same(b, t2)) for a, b in r]), 'contains the generating angles')


# ---------------------------------------------------------------- C18
SP3AX = ['z', 'y', 'X', 'a', 'b', 'c']


def inplane(env, k, th):
    """Unit vector at angle th in the plane perpendicular to k."""
    np = env.np
    e = {'z': ((1, 0, 0), (0, 1, 0)), 'y': ((0, 0, 1), (1, 0, 0)), 'X': ((0, 1, 0), (0, 0, -1)), 'a': ((0, 1, 0), (-0.8, 0, 0.6)),
         'b': ((1, 0, 0), (0, 0.8, 0.6)), 'c': ((-1 / 3., -2 / 3., 2 / 3.), (2 / 3., -2 / 3., -1 / 3.))}[k]
    from fractions import Fraction as Fr
    if env.symbolic:
        u, w = [env.array([env.const(Fr(x).limit_denominator(1000)) for x in v]) for v in e]
    else:
        u, w = [env.array(v) for v in e]
    return np.cos(th) * u + np.sin(th) * w


def axisvec(env, k):
    """(axis, first, second direction of the plane): a numeric frame, or any frame."""
    if k == 'any':
        F = env.frame('F')
        return F[:, 2], F[:, 0], F[:, 1]
    return fvec(env, k), inplane(env, k, 0), inplane(env, k, env.pi / 2)


def cyl(env, k, h, a, th):
    np = env.np
    K, u, w = axisvec(env, k) if not isinstance(k, tuple) else k
    return h * K + a * (np.cos(th) * u + np.sin(th) * w)


@scenario('C18', over=[dict(k=a) for a in SP3AX + ['any']], budget=60)
def sp3_solves(env, k):
    """d is the distance at some angle: that angle is found and every returned angle gives distance d."""
    np, rox = env.np, env.rox
    contract1(env)
    fr = axisvec(env, k)
    a, b = env.real('a', lo=0.001, hi=10), env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al, de = env.angle('al'), env.angle('de', lo=-3.13, hi=3.13)
    be = 0 if k == 'any' else env.angle('be')
    band(env, np.sin(de), 1e-6)
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, be)
    d2 = a * a + b * b + 2 * a * b * np.cos(de) + (hp + hq) * (hp + hq)
    env.assume(d2 >= 1e-6)
    d = np.sqrt(d2)
    r = rox.subproblem3(p, q, fr[0], d)
    env.require(len(r) > 0, 'a solution exists')
    for t in r:
        v = q + np.matmul(Rk(env, fr[0], t), p)
        env.eq(np.dot(v, v), d2, 'distance')
    env.require(env.Or(*[env.Same(t, be - al + de) for t in r]), 'contains the generating angle')
    if len(r) == 1:
        env.require(np.sin(de) == 0 if env.symbolic else abs(np.sin(de)) < 1e-6, 'two solutions away from the ends of the range')


@scenario('C18', over=[dict(k=a, side=s) for a in SP3AX + ['any'] for s in (1, -1)], budget=60)
def sp3_out_of_reach(env, k, side):
    """Too far or too near: the answer is the empty list."""
    np, rox = env.np, env.rox
    contract1(env)
    fr = axisvec(env, k)
    a, b = env.real('a', lo=0.001, hi=10), env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al = env.angle('al')
    be = 0 if k == 'any' else env.angle('be')
    e = env.real('e', lo=1e-6, hi=100)
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, be)
    d2 = (hp + hq) * (hp + hq) + (a + side * b) * (a + side * b) + side * e
    env.assume(d2 >= 0)
    r = rox.subproblem3(p, q, fr[0], np.sqrt(d2))
    env.require(len(r) == 0, 'empty')


@scenario('C18', over=[dict(k=a, on=o) for a in SP3AX + ['any'] for o in ('p', 'q', 'pq')], budget=60)
def sp3_on_axis(env, k, on):
    """One or both vectors on the axis: every angle gives the same distance; that distance is solved, any other is out of reach."""
    np, rox = env.np, env.rox
    contract1(env)
    fr = axisvec(env, k)
    a = 0 if 'p' in on else env.real('a', lo=0.001, hi=10)
    b = 0 if 'q' in on else env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al = env.angle('al')
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, 0)
    h = env.choice('h', (0, 1, -1))
    e = env.real('e', lo=1e-5, hi=100)
    d2 = a * a + b * b + (hp + hq) * (hp + hq)
    env.assume(d2 >= 1e-6)
    env.assume(d2 + h * e >= 0)
    r = rox.subproblem3(p, q, fr[0], np.sqrt(d2 + h * e))
    if h:
        env.require(len(r) == 0, 'empty')
        return
    env.require(len(r) > 0, 'a solution exists')
    for t in r:
        env.finite(t, 'angle')
        v = q + np.matmul(Rk(env, fr[0], t), p)
        env.eq(np.dot(v, v), d2, 'distance')


@scenario('C18', over=[dict(k=a) for a in ('z', 'a', 'any')], npts=40)
def sp3_folded(env, k):
    """Vectors of equal radius folded onto each other (distance zero), with a rounding-sized rest along the axis: solved."""
    np, rox = env.np, env.rox
    contract1(env)
    fr = axisvec(env, k)
    a, hp, e = env.real('a', lo=0.01, hi=10), env.real('hp', lo=-10, hi=10), env.real('e', lo=-1, hi=1)
    al = env.angle('al')
    eps = 5e-15
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, -hp + eps * e, a, 0)
    r = rox.subproblem3(p, q, fr[0], 0.0)
    env.require(len(r) > 0, 'a solution exists')
    for t in r:
        v = q + np.matmul(Rk(env, fr[0], t), p)
        env.eq(np.dot(v, v), (eps * e) * (eps * e), 'distance')


# ---------------------------------------------------------------- C19
@scenario('C19', over=[dict(k=a) for a in SP3AX + ['any']], budget=60)
def sp4_solves(env, k):
    """d is the displacement at some angle: the two angles that reach it are the solutions."""
    np, rox = env.np, env.rox
    fr = axisvec(env, k)
    a, b = env.real('a', lo=0.001, hi=10), env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al, de = env.angle('al'), env.angle('de')
    be = 0 if k == 'any' else env.angle('be')
    away(env, np.sin(de), 1e-6)
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, be)
    d = hp * hq + a * b * np.cos(de)
    r = rox.subproblem4(p, q, fr[0], d)
    env.require(len(r) == 2, 'two solutions')
    for t in r:
        env.eq(np.dot(p, np.matmul(Rk(env, fr[0], t), q)), d, 'displacement')
    for s in (1, -1):
        env.require(env.Or(*[env.Same(t, al - be + s * de) for t in r]), 'contains both generating angles')


@scenario('C19', over=[dict(k=a, s=s) for a in ('z', 'X', 'a', 'any') for s in (1, -1)])
def sp4_limit(env, k, s):
    """d is at an end of the range: still solved."""
    np, rox = env.np, env.rox
    fr = axisvec(env, k)
    a, b = env.real('a', lo=0.001, hi=10), env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al = env.angle('al')
    be = 0 if k == 'any' else env.angle('be')
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, be)
    r = rox.subproblem4(p, q, fr[0], hp * hq + s * a * b)
    env.require(len(r) > 0, 'a solution exists')
    for t in r:
        env.same_angle(t, al - be + (0 if s > 0 else env.pi), 'the angle of the extreme displacement') if env.symbolic else \
            env.eq(np.dot(p, np.matmul(Rk(env, fr[0], t), q)), hp * hq + s * a * b, 'displacement')


@scenario('C19', over=[dict(k=a, s=s) for a in SP3AX + ['any'] for s in (1, -1)], budget=60)
def sp4_out_of_reach(env, k, s):
    """Too large on either side: the empty list."""
    np, rox = env.np, env.rox
    fr = axisvec(env, k)
    a, b = env.real('a', lo=0.001, hi=10), env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al = env.angle('al')
    be = 0 if k == 'any' else env.angle('be')
    e = env.real('e', lo=1e-6, hi=100)
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, be)
    r = rox.subproblem4(p, q, fr[0], hp * hq + s * (a * b + e))
    env.require(len(r) == 0, 'empty')


@scenario('C19', over=[dict(k=a, on=o) for a in SP3AX + ['any'] for o in ('p', 'q', 'pq')], budget=60)
def sp4_on_axis(env, k, on):
    """One or both vectors on the axis (a shoulder singularity): the displacement they have at every angle is solved, any other is out of range."""
    np, rox = env.np, env.rox
    fr = axisvec(env, k)
    a = 0 if 'p' in on else env.real('a', lo=0.001, hi=10)
    b = 0 if 'q' in on else env.real('b', lo=0.001, hi=10)
    hp, hq = env.real('hp', lo=-10, hi=10), env.real('hq', lo=-10, hi=10)
    al = env.angle('al')
    h = env.choice('h', (0, 1, -1))
    e = env.real('e', lo=1e-5, hi=100)
    p, q = cyl(env, fr, hp, a, al), cyl(env, fr, hq, b, 0)
    d = hp * hq
    r = rox.subproblem4(p, q, fr[0], d + h * e)
    if h:
        env.require(len(r) == 0, 'empty')
        return
    env.require(len(r) > 0, 'a solution exists')
    for t in r:
        env.finite(t, 'angle')
        env.eq(np.dot(p, np.matmul(Rk(env, fr[0], t), q)), d, 'displacement')
