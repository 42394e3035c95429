"""C20-C24: closed-form inverse kinematics and equivalent configurations.

The geometric subproblems are replaced in the symbolic run by their specification (C16-C19 decide that the code meets it): the solver
behind a subproblem call must return the angles of the generating configuration when that configuration solves the posed subproblem.
The concrete runs use the real subproblems."""
from symx.reg import scenario
from symx import core
from checks.c09_model import rodrigues, cross, AX, poe

OPW = ['zyyxyx', 'zyyzyz', 'zyyzyx']
# the same axes with signs
OPWSIGN = ['ZyyXyX', 'zYYxYx', 'zyYzyz', 'ZYyZyz', 'zyyxYX', 'zYyZYZ']
UR = ['zyyyZy', 'zYYYZY']


class Contracts:
    """Specification stubs.  ang: base angles; pairs: joint pairs; junk: offer a second root that leads nowhere."""
    # what subproblems 3 and 4 may return, in turns
    RANGE = dict(sp3=(-1, 1), sp4=(-0.75, 1.25))

    def __init__(self, env, ang, pairs, junk=None, first=0, turns=None):
        self.turns = turns
        self.env, self.ang, self.pairs, self.junk, self.first = env, ang, pairs, junk, first
        self.njunk = 0
        self.jr = 3.14
        if env.symbolic:
            m = env.mod('general_robotics_toolbox')
            for f in ('subproblem1', 'subproblem2', 'subproblem3', 'subproblem4'):
                setattr(m, f, getattr(self, f))
                setattr(env.rox, f, getattr(self, f))

    def v(self, x):
        np = self.env.np
        return np.reshape(np.array(x), (3,))

    def R(self, k, t):
        np = self.env.np
        return rodrigues(np, k, np.cos(t), np.sin(t))

    @staticmethod
    def zero(x):
        return all(core.Sym.of(e).iszero() for e in x.reshape(-1))

    def fresh(self):
        self.njunk += 1
        return self.env.angle('junk%d' % self.njunk, lo=-self.jr, hi=self.jr)

    def cand(self):
        for t in self.ang:
            yield t
            yield -t

    def order(self, good, name):
        if self.junk == name:
            x = (self.fresh(), self.fresh()) if isinstance(good[0], tuple) else self.fresh()
            return [x] + good if self.first else good + [x]
        return good

    def turned(self, t, name):
        # a root is an angle up to full turns
        if self.turns != name:
            return t
        n = self.env.choice('turn', (1, -1))
        t = t + 2 * self.env.pi * n
        lo, hi = self.RANGE[name]
        self.env.assume(self.env.And(t >= 2 * self.env.pi * lo, t <= 2 * self.env.pi * hi))
        return t

    def unmatched(self, what, junkval):
        if self.njunk:
            return junkval()
        self.env.suspect('%s is posed so that the generating configuration does not solve it' % what)
        raise core.Unsupported('%s: the generating configuration does not solve the posed problem' % what)

    def subproblem1(self, p, q, k):
        p, q, k = self.v(p), self.v(q), self.v(k)
        np = self.env.np
        for t in self.cand():
            if self.zero(np.matmul(self.R(k, t), p) - q):
                return t
        return self.unmatched('subproblem 1', lambda: self.ang[1] if self.ang else self.fresh())

    def subproblem2(self, p, q, k1, k2):
        p, q, k1, k2 = [self.v(x) for x in (p, q, k1, k2)]
        np = self.env.np
        r = []
        for a, b in self.pairs:
            for s1 in (1, -1):
                for s2 in (1, -1):
                    if self.zero(np.matmul(self.R(k1, s1 * a), np.matmul(self.R(k2, s2 * b), p)) - q):
                        r.append((s1 * a, s2 * b))
        if r:
            return self.order(r[::-1] if self.first else r, 'sp2')
        if self.njunk:
            self.regular(q, k1)
        return self.unmatched('subproblem 2', list)

    def regular(self, q, k):
        """Away from the singular wrist, where the angle about k is not determined."""
        v = cross(self.env.np, q, k)
        self.env.assume(self.env.np.dot(v, v) >= 1e-6)

    def subproblem3(self, p, q, k, d):
        p, q, k = self.v(p), self.v(q), self.v(k)
        np = self.env.np
        for t in self.cand():
            v = q + np.matmul(self.R(k, t), p)
            if (np.dot(v, v) - d * d).iszero():
                return self.order([self.turned(t, 'sp3')], 'sp3')
        return self.unmatched('subproblem 3', list)

    def subproblem4(self, p, q, k, d):
        p, q, k = self.v(p), self.v(q), self.v(k)
        np = self.env.np
        for t in self.cand():
            if core.Sym.of(np.dot(p, np.matmul(self.R(k, t), q)) - d).iszero():
                return self.order([self.turned(t, 'sp4')], 'sp4')
        return self.unmatched('subproblem 4', list)


def reals(env, name, n, lo=-1, hi=1):
    return [env.real('%s%d' % (name, i), lo=lo, hi=hi) for i in range(n)]


def colmat(np, cols):
    return np.array([list(c) for c in cols]).T


def opw_robot(env, axes, offs=False, aux='', simple=False, **kw):
    """A spherical-wrist arm.  Link vectors are arbitrary where the geometry leaves them free."""
    np, rox = env.np, env.rox
    H = np.array([list(AX[a]) for a in axes], dtype=float).T
    h = [H[:, i] for i in range(6)]
    z = [0, 0, 0]
    if simple:
        l = [env.real('l%d' % i, lo=0.1, hi=1) for i in range(4)]
        P = [z, [l[0], 0, l[1]], [0, 0, l[2]], [l[3], 0, 0.1], z, z, [0.1, 0, 0.2]]
    else:
        P = [reals(env, 'p0_', 3), reals(env, 'p1_', 3), reals(env, 'p2_', 3), reals(env, 'p3_', 3), z, z, reals(env, 'p6_', 3)]
    if offs:
        P[4] = env.real('p4', lo=0.01, hi=1) * env.choice('s4', (1, -1)) * h[3]
        P[5] = env.real('p5', lo=0.01, hi=1) * env.choice('s5', (1, -1)) * h[5]
    P = colmat(np, P)
    m = {}
    if 't' in aux:
        m['R_tool'], m['p_tool'] = env.frame('Rt'), env.vec('pt', lo=-1, hi=1)
    if 'f' in aux:
        m['T_flange'] = rox.Transform(env.frame('Rf'), env.vec('pf', lo=-1, hi=1))
    if 'b' in aux:
        m['T_base'] = rox.Transform(env.frame('Rb'), env.vec('pb', lo=-1, hi=1))
    r = rox.Robot(H, P, [0] * 6, **m, **kw)
    return r, H, P, m


def ur_robot(env, axes, aux='', **kw):
    np, rox = env.np, env.rox
    H = np.array([list(AX[a]) for a in axes], dtype=float).T
    z = [0, 0, 0]
    P = [reals(env, 'p0_', 3), reals(env, 'p1_', 3), reals(env, 'p2_', 3), reals(env, 'p3_', 3), reals(env, 'p4_', 3),
         [0] + reals(env, 'p5_', 2), reals(env, 'p6_', 3)]
    P = colmat(np, P)
    m = {}
    if 't' in aux:
        m['R_tool'], m['p_tool'] = env.frame('Rt'), env.vec('pt', lo=-1, hi=1)
    if 'f' in aux:
        m['T_flange'] = rox.Transform(env.frame('Rf'), env.vec('pf', lo=-1, hi=1))
    if 'b' in aux:
        m['T_base'] = rox.Transform(env.frame('Rb'), env.vec('pb', lo=-1, hi=1))
    return rox.Robot(H, P, [0] * 6, **m, **kw), H, P, m


def sq(np, v):
    return np.dot(v, v)


def regular_opw(env, H, P, q):
    """Away from the singular configurations, where joint angles are not determined."""
    np = env.np
    R1 = rodrigues(np, H[:, 1], np.cos(q[1]), np.sin(q[1]))
    R3 = rodrigues(np, H[:, 2], np.cos(q[2]), np.sin(q[2]))
    b = np.matmul(R3, P[:, 3] + P[:, 4])
    w = P[:, 1] + np.matmul(R1, P[:, 2] + b)
    x = w[0]                        # reach of the wrist centre in the arm's plane
    away(env, x)
    away(env, cross(np, P[:, 2], b)[1])          # elbow neither straight nor folded
    e = P[:, 2] + b
    env.assume(e[0] * e[0] + e[2] * e[2] >= 1e-3)
    R5 = rodrigues(np, H[:, 4], np.cos(q[4]), np.sin(q[4]))
    c = np.dot(H[:, 3], np.matmul(R5, H[:, 5]))
    env.assume(c * c <= 0.99)


def away(env, x, eps=0.001):
    env.assume(env.Or(x >= eps, x <= -eps))


def wrist_pairs(env, axes, q):
    """Both wrist solutions of the generating configuration, and the angles of joint 6 that go with them."""
    s = -1 if axes[4].isupper() else 1
    if axes[3].lower() == axes[5].lower():
        alt5 = -q[4]
    else:
        alt5 = -s * env.pi - q[4]
    return [(q[3], q[4]), (q[3] + env.pi, alt5)]


def contains(env, sols, q):
    return env.Or(*[env.And(*[env.Same(s[i], q[i]) for i in range(6)]) for s in sols])


def pose(env, r, H, P, m, q):
    R, p = poe(env, H, P, [0] * 6, q, m)
    return env.rox.Transform(R, p), R, p


def check_pose(env, H, P, m, sols, R, p):
    for s in sols:
        Rs, ps = poe(env, H, P, [0] * 6, s, m)
        env.eq(Rs, R, 'orientation of a returned configuration')
        env.eq(ps, p, 'position of a returned configuration')


@scenario(['C20', 'C21'], over=[dict(axes=a, offs=o, aux='') for a in OPW for o in (False, True)] + [dict(axes='zyyxyx', offs=False, aux=a) for a in ('t', 'f', 'b')] +
          [dict(axes=a, offs=i % 2 == 0, aux='') for i, a in enumerate(OPWSIGN)],
          thorough_over=[dict(axes='zyyzyz', offs=True, aux='tfb')], budget=90)
def opw_ik(env, axes, offs, aux):
    """Pose of any configuration of any such arm: that configuration is returned, and everything returned has that pose."""
    np, rox = env.np, env.rox
    r, H, P, m = opw_robot(env, axes, offs, aux)
    q = [env.angle('q%d' % i) for i in range(6)]
    regular_opw(env, H, P, q)
    P0 = P.copy()
    T, R, p = pose(env, r, H, P, m, q)
    pr = wrist_pairs(env, axes, q)
    Contracts(env, q + [q[5] + env.pi], pr, first=env.choice('order', (0, 1)))
    sols = rox.robot6_sphericalwrist_invkin(r, T)
    env.require(contains(env, sols, q), 'the generating configuration is among the solutions')
    check_pose(env, H, P, m, sols, R, p)
    env.eq(r.P, P0, 'robot description unchanged')
    env.eq(r.H, H, 'robot description unchanged')


@scenario(['C20', 'C21'], over=[dict(axes=a, junk=j) for a in OPW for j in ('sp4', 'sp3', 'sp2')], budget=90)
def opw_branches(env, axes, junk):
    """Several roots of one subproblem, in any order: a root that leads nowhere does not hide the configurations of the others."""
    np, rox = env.np, env.rox
    r, H, P, m = opw_robot(env, axes, simple=True)
    q = [env.angle('q%d' % i) for i in range(6)]
    regular_opw(env, H, P, q)
    T, R, p = pose(env, r, H, P, m, q)
    Contracts(env, q + [q[5] + env.pi], wrist_pairs(env, axes, q), junk=junk, first=env.choice('order', (0, 1)))
    sols = rox.robot6_sphericalwrist_invkin(r, T)
    env.require(contains(env, sols, q), 'the generating configuration is among the solutions')
    if env.symbolic:
        # of the specification stubs' second roots only those of the wrist can complete a configuration
        sols = sols if junk != 'sp2' else []
    check_pose(env, H, P, m, sols, R, p)


@scenario(['C20', 'C21'], over=[dict(axes=a) for a in OPW], budget=60)
def shoulder(env, axes):
    """Wrist centre exactly on the axis of joint 1 (every angle of joint 1 solves its subproblem, which is not replaced here): answered,
    with configurations of that pose; the configuration itself when joint 1 is at zero."""
    np, rox = env.np, env.rox
    ur = axes in UR
    q = [env.angle('q%d' % i) for i in range(6)]
    q[0] = 0.0
    l = [env.real('l%d' % i, lo=0.1, hi=1) for i in range(6)]
    z = [0, 0, 0]
    P = [[0, 0, l[0]], [0, l[3], l[1]], [0, 0, l[2]], [0.5, -l[3], 0.25], z, z, [0.1, 0, l[4]]]
    if ur:
        P[4] = [0, 0.1, l[5]]
        P[1][1] = l[3] - 0.1
    H, P = colmat(np, [list(AX[a]) for a in axes]), colmat(np, P)
    R2, R3, R4 = [rodrigues(np, H[:, i], np.cos(q[i]), np.sin(q[i])) for i in (1, 2, 3)]
    b = P[:, 3] + (np.matmul(R4, P[:, 4]) if ur else 0)
    b = np.matmul(R3, b)
    w = np.matmul(R2, P[:, 2] + b)
    P[0, 1] = -w[0]
    away(env, cross(np, P[:, 2], np.matmul(R3, P[:, 3]))[1])
    e = P[:, 2] + np.matmul(R3, P[:, 3])
    env.assume(e[0] * e[0] + e[2] * e[2] >= 1e-3)
    R5 = rodrigues(np, H[:, 4], np.cos(q[4]), np.sin(q[4]))
    c = np.dot(H[:, 3], np.matmul(R5, H[:, 5]))
    env.assume(c * c <= 0.99)
    r = rox.Robot(H, P, [0] * 6)
    T, R, p = pose(env, r, H, P, {}, q)
    m = env.mod('general_robotics_toolbox')
    sp4 = m.subproblem4
    Contracts(env, q + [q[5] + env.pi], ur_hints(env, q) if ur else wrist_pairs(env, axes, q))
    m.subproblem4 = env.rox.subproblem4 = sp4
    sols = (rox.ur_invkin if ur else rox.robot6_sphericalwrist_invkin)(r, T)
    if env.symbolic:
        env.require(len(sols) > 0, 'a reachable pose is answered')
        env.require(contains(env, sols, q), 'the generating configuration is among the solutions')
    for s in sols:
        env.finite(s, 'joint values')
    check_pose(env, H, P, {}, sols, R, p)


@scenario('C22', over=[dict(axes=a) for a in UR], budget=60)
def shoulder_ur(env, axes):
    """As shoulder, for the arms with three parallel axes."""
    shoulder(env, axes)


@scenario(['C20', 'C23'], over=[dict(axes=a, last=l, solver='opw') for a in OPW for l in (False, True)] + [dict(axes=a, last=l, solver='ur') for a in UR for l in (False, True)], fork_ms=50)
def unreachable(env, axes, last, solver):
    """A pose out of reach gives an empty list, with and without last joints."""
    np, rox = env.np, env.rox
    h = [list(AX[a]) for a in axes]
    z = [0, 0, 0]
    l = [env.real('l%d' % i, lo=0.1, hi=1) for i in range(3)]
    if solver == 'opw':
        P = [z, [l[0], 0, 0.3], [0, 0, l[1]], [l[2], 0, 0], z, z, [0.1, 0, 0]]
    else:
        P = [z, [0, 0, l[0]], [-l[1], 0, 0], [-l[2], 0, 0], [0, -0.1, 0], [0, 0, -0.1], [0, -0.1, 0]]
    r = rox.Robot(colmat(np, h), colmat(np, P), [0] * 6)
    aligned = env.choice('aligned', (False, True)) if solver == 'ur' and not last else False
    R = np.eye(3) if aligned else env.frame('R')
    d = env.real('d', lo=4, hi=1000)
    n = env.unit3('n')
    lj = np.array([env.angle('last%d' % i, lo=-0.3, hi=0.3) for i in range(6)]) if last else None
    T = rox.Transform(R, d * n)
    if env.symbolic:
        c = Contracts(env, [], [])
        c.jr = 0.3

        def wrist(p, q, k1, k2):
            if solver == 'ur' and not aligned:
                c.regular(c.v(q), k1)
            return [(c.fresh(), c.fresh())]

        m = env.mod('general_robotics_toolbox')
        for f in (m, env.rox):
            # of these only the distance problem is bound to fail
            f.subproblem4 = lambda p, q, k, d: [c.fresh(), c.fresh()]
            f.subproblem2 = wrist
            f.subproblem3 = lambda p, q, k, d: []
    f = rox.robot6_sphericalwrist_invkin if solver == 'opw' else rox.ur_invkin
    sols = f(r, T, lj) if last else f(r, T)
    env.require(len(sols) == 0, 'empty list')


def refused(env, f):
    try:
        f()
    except (AssertionError, ValueError):
        env.require(True, 'refused')
    else:
        env.fail('not refused')


@scenario('C20', over=[dict(axes=a, link=l) for a in OPW for l in (4, 5)])
def opw_refuses(env, axes, link):
    """Wrist axes that do not meet in one point: refused instead of answered wrongly."""
    np, rox = env.np, env.rox
    H = colmat(np, [list(AX[a]) for a in axes])
    z = [0, 0, 0]
    P = [reals(env, 'p0_', 3), reals(env, 'p1_', 3), reals(env, 'p2_', 3), reals(env, 'p3_', 3), z, z, reals(env, 'p6_', 3)]
    v = env.vec('v', lo=-1, hi=1)
    x = cross(np, v, H[:, 3 if link == 4 else 5])
    env.assume(np.dot(x, x) >= 1e-8)
    P[link] = list(v)
    r = rox.Robot(H, colmat(np, P), [0] * 6)
    refused(env, lambda: rox.robot6_sphericalwrist_invkin(r, rox.Transform(env.frame('R'), env.vec('p'))))


# ---------------------------------------------------------------- C22
def regular_ur(env, H, P, q):
    np = env.np
    s5 = np.sin(q[4])
    away(env, s5)
    R2, R3, R4 = [rodrigues(np, H[:, i], np.cos(q[i]), np.sin(q[i])) for i in (1, 2, 3)]
    b = np.matmul(R3, P[:, 3])
    away(env, cross(np, P[:, 2], b)[1])
    e = P[:, 2] + b
    env.assume(e[0] * e[0] + e[2] * e[2] >= 1e-3)
    # a displacement of joint 6 along the axis of joint 5
    f = np.array([0, 0, P[2, 5]])
    w = P[:, 1] + np.matmul(R2, P[:, 2] + np.matmul(R3, P[:, 3] + np.matmul(R4, P[:, 4] + f)))
    away(env, w[0])


def ur_hints(env, q):
    return [(q[1] + q[2] + q[3], q[4])]


@scenario('C22', over=[dict(axes=a, aux='') for a in UR] + [dict(axes='zYYYZY', aux='t'), dict(axes='zyyyZy', aux='b'), dict(axes='zYYYZY', aux='f')],
          thorough_over=[dict(axes='zYYYZY', aux='tb')], budget=90)
def ur_ik(env, axes, aux):
    """Pose of any configuration of any such arm: that configuration is returned, and everything returned has that pose."""
    np, rox = env.np, env.rox
    r, H, P, m = ur_robot(env, axes, aux)
    q = [env.angle('q%d' % i) for i in range(6)]
    regular_ur(env, H, P, q)
    P0 = P.copy()
    T, R, p = pose(env, r, H, P, m, q)
    Contracts(env, q, ur_hints(env, q))
    sols = rox.ur_invkin(r, T)
    env.require(contains(env, sols, q), 'the generating configuration is among the solutions')
    check_pose(env, H, P, m, sols, R, p)
    env.eq(r.P, P0, 'robot description unchanged')


# joints 2, 3 and 4 in quarter turns: straight and folded arms, the wrist at a right angle
SINGULAR = [(0, 0, -1), (1, 0, 1), (0, 0, 1), (0, 2, 1), (1, 2, 1), (2, 2, -1)]


class WristSingular(Contracts):
    """Joint 4 is free: the wrist problem is answered by an arbitrary angle of it, the distance problem by some angle if and only if the distance is attained.  Other angles do not matter here."""

    def subproblem1(self, p, q, k):
        return self.env.const(0)

    def subproblem2(self, p, q, k1, k2):
        return [(self.fresh(), self.pairs[0][1])]

    def subproblem3(self, p, q, k, d):
        np = self.env.np
        p, q, k = self.v(p), self.v(q), self.v(k)
        pp, qp = p - np.dot(k, p) * k, q - np.dot(k, q) * k
        s, t = np.dot(pp, pp), np.dot(qp, qp)
        n, m = np.sqrt(s), np.sqrt(t)
        a = np.dot(k, p + q)
        h = d * d - a * a
        # d may be off by rounding
        if h > (n + m) * (n + m) + 1e-9 or h < (n - m) * (n - m) - 1e-9:
            return []
        if core.Sym.of(p[2]).iszero() and core.Sym.of(p[1]).iszero():
            return [self.env.const(0)]           # the elbow
        self.njunk += 1
        x = self.env.angle('junk%d' % self.njunk)
        v = q + np.matmul(self.R(k, x), p)
        self.env.assume(np.dot(v, v) == d * d)
        return [x]


@scenario('C22', over=[dict(axes=a, q5=x, turns=p) for a in UR for x in (0, 1) for p in SINGULAR[:2]],
          thorough_over=[dict(axes=a, q5=x, turns=p) for a in UR for x in (0, 1) for p in SINGULAR], budget=60, goal_ms=15000)
def ur_wrist_singular(env, axes, q5, turns):
    """Joint 6 parallel to joint 4, where the angle of joint 4 is free: a reachable pose is answered, with configurations of that pose."""
    np, rox = env.np, env.rox
    t = env.pi / 2
    q = [0.0] + [x * t for x in turns] + [q5 * env.pi, 0.0]
    l = [env.real('l%d' % i, lo=0.1, hi=1) for i in range(3)]
    P = [[0, 0, 0], [0, 0, 0.09], [-l[0], 0, 0], [-l[1], 0, 0], [0, -0.11, -l[2]], [0, 0, 0], [0, -0.08, 0]]
    H, P = colmat(np, [list(AX[a]) for a in axes]), colmat(np, P)
    r = rox.Robot(H, P, [0] * 6)
    T, R, p = pose(env, r, H, P, {}, q)
    WristSingular(env, q, [(0, q[4])])
    sols = rox.ur_invkin(r, T)
    env.require(len(sols) > 0, 'a reachable pose is answered')
    for s in sols:
        env.finite(s, 'joint values')
    if not env.symbolic:
        check_pose(env, H, P, {}, sols, R, p)


@scenario('C22', over=[dict(axes=a, what=w) for a in UR for w in (0, 1, 2, 3, 4, 5, 'link', 'tilt')])
def ur_refuses(env, axes, what):
    """Other axes than those of the family, or last axes that do not meet: refused."""
    np, rox = env.np, env.rox
    h = [list(AX[a]) for a in axes]
    P = [reals(env, 'p%d_' % i, 3) for i in range(7)]
    if what == 'link':
        env.assume(env.Or(P[5][0] >= 1e-4, P[5][0] <= -1e-4))
    else:
        P[5][0] = 0
        if what == 'tilt':
            t = env.angle('tilt', lo=-3, hi=3)
            c = np.cos(t)
            env.assume(c <= 0.9999)
            j = env.choice('joint', (1, 3, 5))
            v = h[j]
            h[j] = [v[0], v[1] * c, v[1] * np.sin(t)]
        else:
            for a in ([1, 0, 0], [0, 1, 0], [0, 0, 1]):
                if not any(x * y for x, y in zip(a, h[what])):
                    h[what] = a
                    break
    r = rox.Robot(colmat(np, h), colmat(np, P), [0] * 6)
    refused(env, lambda: rox.ur_invkin(r, rox.Transform(env.frame('R'), env.vec('p'))))


@scenario('C22', over=[dict(axes=a, junk=j) for a in UR for j in ('sp4', 'sp2', 'sp3')], budget=90)
def ur_branches(env, axes, junk):
    """Second roots of the subproblems in any order do not hide the configurations of the others."""
    np, rox = env.np, env.rox
    r, H, P, m = ur_robot(env, axes)
    q = [env.angle('q%d' % i) for i in range(6)]
    regular_ur(env, H, P, q)
    T, R, p = pose(env, r, H, P, m, q)
    Contracts(env, q, ur_hints(env, q), junk=junk, first=env.choice('order', (0, 1)))
    sols = rox.ur_invkin(r, T)
    env.require(contains(env, sols, q), 'the generating configuration is among the solutions')
    if not env.symbolic:
        check_pose(env, H, P, m, sols, R, p)


# ---------------------------------------------------------------- C23
def arm(env, solver, **kw):
    np = env.np
    if solver == 'opw':
        axes = 'zyyxyx'
        P = [[0, 0, 0.1], [0.2, 0, 0.3], [0, 0, 0.5], [0.6, 0, 0.1], [0, 0, 0], [0, 0, 0], [0.1, 0, 0.05]]
        f, reg = env.rox.robot6_sphericalwrist_invkin, regular_opw
    else:
        axes = 'zYYYZY'
        P = [[0, 0, 0], [0, 0, 0.09], [-0.43, 0, 0], [-0.39, 0, 0], [0, -0.11, 0], [0, 0, -0.09], [0, -0.08, 0]]
        P[4], P[5] = [0, -0.11, -0.09], [0, 0, 0]
        f, reg = env.rox.ur_invkin, regular_ur
    P = colmat(np, P)
    H = colmat(np, [list(AX[a]) for a in axes])
    return axes, env.rox.Robot(H, P, [0] * 6, **kw), H, P, f, reg


def configuration(env, solver, reg, H, P):
    """Any configuration in [-3.1, 3.1]; for the parallel axes the sum of joints 2 to 4 is kept as the principal angle the subproblem returns."""
    a = lambda n: env.angle(n, lo=-3.1, hi=3.1)
    if solver == 'opw':
        q = [a('q%d' % i) for i in range(6)]
        s = None
    else:
        q = [a('q0'), a('q1'), a('q2'), None, a('q4'), a('q5')]
        s = a('q123')
        q[3] = s - q[1] - q[2] + 2 * env.pi * env.choice('wrap', (0, 1, -1))
        env.assume(env.And(q[3] <= 3.1, q[3] >= -3.1))
    reg(env, H, P, q)
    return q, s


def hints(env, solver, axes, q, s, junk=None, turns=None):
    first = env.choice('order', (0, 1)) if junk else 0
    if solver == 'opw':
        Contracts(env, q + [q[5] + env.pi], wrist_pairs(env, axes, q), junk=junk, first=first, turns=turns)
    else:
        Contracts(env, q, [(s, q[4])], junk=junk, first=first, turns=turns)


def tracking(env, solver, j, alld, turns, lim=None, junk=None):
    np = env.np
    kw = {} if lim is None else dict(joint_lower_limit=np.array([-lim] * 6), joint_upper_limit=np.array([lim] * 6))
    axes, r, H, P, f, reg = arm(env, solver, **kw)
    q, qs = configuration(env, solver, reg, H, P)
    d = [env.real('d%d' % i, lo=-0.3, hi=0.3) if alld or i == j else 0 for i in range(6)]
    n = env.choice('turns', turns)
    last = np.array([q[i] + d[i] + (2 * env.pi * n if i == j else 0) for i in range(6)])
    T, R, p = pose(env, r, H, P, {}, q)
    hints(env, solver, axes, q, qs, junk)
    l0 = last.copy()
    sols = f(r, T, last)
    env.eq(last, l0, 'last joints unchanged')
    env.require(len(sols) > 0, 'a solution is returned')
    if not (env.symbolic and junk in ('sp2', 'sp3')):
        check_pose(env, H, P, {}, sols, R, p)

    def dist(s):
        return sum((s[i] - last[i]) * (s[i] - last[i]) for i in range(6))
    for a, b in zip(sols, sols[1:]):
        env.require(dist(a) <= dist(b) + 1e-9, 'ordered by distance')
    s = sols[0]
    near = sum(x * x for x in d) + (0 if env.symbolic else 1e-9)
    if lim is None:
        env.require(dist(s) <= near, 'the first answer is no farther from the last joints than the nearby configuration')
        for s in sols:
            for i in range(6):
                env.require(env.And(s[i] - last[i] <= env.pi + 1e-9, last[i] - s[i] <= env.pi + 1e-9), 'every joint within half a turn of its last position')
    else:
        x = q[j] + 2 * env.pi * n
        env.require(env.Implies(env.And(x < lim - 1e-6, x > 1e-6 - lim), dist(s) <= near), 'the nearby configuration is reachable: first answer no farther')
        for s in sols:
            env.require(env.And(*[env.And(s[i] <= lim, s[i] >= -lim) for i in range(6)]), 'inside the limits')


@scenario('C23', over=[dict(solver=s, j=j) for s in ('opw', 'ur') for j in range(6)], thorough_over=[dict(solver=s, j=0, alld=True) for s in ('opw', 'ur')],
          budget=60, t_budget=900, max_paths=400, t_max_paths=4000)
def nearest(env, solver, j, alld=False):
    """Last joints near a configuration (up to full turns of a joint): the first answer is at least that near."""
    tracking(env, solver, j, alld, (0, -1, 1))


@scenario('C23', over=[dict(solver='opw', j=0, junk='sp4'), dict(solver='opw', j=2, junk='sp3'), dict(solver='ur', j=0, junk='sp4'),
                       dict(solver='ur', j=4, junk='sp2'), dict(solver='ur', j=2, junk='sp3')], budget=60, max_paths=400)
def nearest_roots(env, solver, j, junk):
    """A second root of a subproblem, wherever it lies, does not push the nearby configuration out."""
    tracking(env, solver, j, False, (0,), None, junk)


@scenario('C23', over=[dict(solver=s, j=j) for s in ('opw', 'ur') for j in (0, 4)], thorough_over=[dict(solver=s, j=j) for s in ('opw', 'ur') for j in (1, 2, 3, 5)],
          budget=60, max_paths=400)
def nearest_limits(env, solver, j):
    """As nearest, with limits of +-7 on every joint: every answer keeps them, and a reachable nearby configuration is not pushed out."""
    tracking(env, solver, j, False, (0, -1, 1), 7.0)


@scenario('C23', over=[dict(solver=s, a=1, b=2) for s in ('opw', 'ur')] + [dict(solver='opw', a=3, b=5)], thorough_over=[dict(solver='ur', a=1, b=3), dict(solver='ur', a=2, b=3), dict(solver='ur', a=4, b=5)],
          budget=60, max_paths=400)
def nearest_turns(env, solver, a, b):
    """Limits of +-2 pi on every joint, last joints at a configuration in which two joints are a turn further: it is the first answer."""
    np = env.np
    lim = 6.2831
    axes, r, H, P, f, reg = arm(env, solver, joint_lower_limit=np.array([-lim] * 6), joint_upper_limit=np.array([lim] * 6))
    q, qs = configuration(env, solver, reg, H, P)
    na, nb = env.choice('turns', ((1, 1), (1, -1), (-1, 1), (-1, -1)))
    last = [x for x in q]
    for i, n in ((a, na), (b, nb)):
        last[i] = q[i] + 2 * env.pi * n
        env.assume(q[i] <= -0.01 if n > 0 else q[i] >= 0.01)
    last = np.array(last)
    T, R, p = pose(env, r, H, P, {}, q)
    hints(env, solver, axes, q, qs)
    sols = f(r, T, last)
    env.require(len(sols) > 0, 'a solution is returned')
    if len(sols):
        for i in range(6):
            env.require(env.And(sols[0][i] - last[i] <= 1e-5, last[i] - sols[0][i] <= 1e-5), 'the last position itself is the first answer')
    for s in sols:
        env.require(env.And(*[env.And(x <= lim, x >= -lim) for x in s]), 'inside the limits')


@scenario('C23', over=[dict(solver=s, j=j, junk=k) for s, k, js in (('ur', 'sp3', (1, 3, 5)), ('ur', 'sp2', (1, 2, 3)), ('ur', 'sp4', (2, 4)),
                                                                    ('opw', 'sp3', (1, 3)), ('opw', 'sp4', (1, 4)), ('opw', 'sp2', (5,))) for j in js],
          budget=40, max_paths=120)
def limits_roots(env, solver, j, junk):
    """Limits of one joint around its value in a configuration: the configuration is found whatever other roots the subproblems have."""
    np = env.np
    lo, hi = [-7.0] * 6, [7.0] * 6
    axes, r0, H, P, f, reg = arm(env, solver)
    q, qs = configuration(env, solver, reg, H, P)
    lo[j], hi[j] = q[j] - 0.25, q[j] + 0.25
    r = env.rox.Robot(H, P, [0] * 6, joint_lower_limit=np.array(lo), joint_upper_limit=np.array(hi))
    T, R, p = pose(env, r, H, P, {}, q)
    hints(env, solver, axes, q, qs, junk)
    sols = f(r, T)
    env.require(contains(env, sols, q), 'the configuration inside the limits is returned')
    for s in sols:
        env.require(env.And(s[j] >= lo[j], s[j] <= hi[j]), 'inside the limits')


@scenario('C23', over=[dict(solver=s, j=j) for s in ('opw', 'ur') for j in range(6)] +
          [dict(solver='opw', j=0, turns='sp4'), dict(solver='opw', j=2, turns='sp3'), dict(solver='ur', j=0, turns='sp4'), dict(solver='ur', j=2, turns='sp3')],
          budget=60, max_paths=200)
def limits(env, solver, j, turns=None):
    """Limits of one joint anywhere: answers keep them, and the generating configuration is found when a turn brings it inside."""
    np = env.np
    l, u = env.real('l', lo=-7, hi=7), env.real('u', lo=-7, hi=7)
    env.assume(l + 0.01 <= u)
    lo, hi = [-7.0] * 6, [7.0] * 6
    lo[j], hi[j] = l, u
    axes, r, H, P, f, reg = arm(env, solver, joint_lower_limit=np.array(lo), joint_upper_limit=np.array(hi))
    q, qs = configuration(env, solver, reg, H, P)
    T, R, p = pose(env, r, H, P, {}, q)
    hints(env, solver, axes, q, qs, turns=turns)
    sols = f(r, T)
    for s in sols:
        env.require(env.And(s[j] >= l, s[j] <= u), 'inside the limits')
        for i in range(6):
            if i != j:
                env.require(env.And(s[i] >= -7, s[i] <= 7), 'inside the limits')
    check_pose(env, H, P, {}, sols, R, p)
    e = 1e-3
    inside = env.Or(*[env.And(q[j] + 2 * env.pi * n >= l + e, q[j] + 2 * env.pi * n <= u - e) for n in (-1, 0, 1)])
    env.require(env.Implies(inside, contains(env, sols, q)), 'a configuration inside the limits is returned')
