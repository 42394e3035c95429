"""C24-C26: equivalent configurations, the iterative solver, purity of all computations."""
from symx.reg import scenario
from symx import core
from checks.c09_model import rodrigues, cross, AX, poe
from checks.c20_ik import Contracts, arm, hints, configuration, colmat, away


# ---------------------------------------------------------------- C24
def simple_robot(env, types, **kw):
    np = env.np
    n = len(types)
    H = colmat(np, [list(AX['zyx'[i % 3]]) for i in range(n)])
    P = colmat(np, [[0, 0, 0]] * (n + 1))
    return env.rox.Robot(H, P, list(types), **kw)


def turns(env, th, lo, hi, most):
    """How many full turns up and down stay inside the limits (by case distinction), away from the exact boundary."""
    e = 1e-6
    r = []
    for sgn, lim in ((1, hi), (-1, lo)):
        k = 0
        while k < most:
            x = (lim - th) * sgn - 2 * env.pi * (k + 1)
            env.assume(env.Or(x >= e, x <= -e))
            if not bool(x > 0):
                break
            k += 1
        r.append(k)
    return r


def combos(ns):
    out = [()]
    for u, l in ns:
        out = [c + (k,) for c in out for k in range(-l, u + 1)]
    return out


def equal_conf(env, a, b, n):
    if env.symbolic:
        return env.And(*[core.Sym.of(a[i]) == core.Sym.of(b[i]) for i in range(n)])
    return all(abs(a[i] - b[i]) < 1e-6 for i in range(n))


def equiv_goals(env, types, th, lo, hi, ns, sols):
    np = env.np
    n = len(types)
    want = [c for c in combos(ns) if any(c)]
    env.require(len(sols) == len(want), 'as many configurations as there are combinations of turns')
    for c in want:
        w = [th[i] + 2 * env.pi * c[i] for i in range(n)]
        env.require(env.Or(*[equal_conf(env, s, w, n) for s in sols]), 'turns %s are reported' % (c,))
    for s in sols:
        env.require(np.shape(s) == (n,), 'one value per joint')
        for i in range(n):
            env.require(env.And(s[i] <= hi[i] + 1e-9, s[i] >= lo[i] - 1e-9), 'inside the limits')


def within(env, types, most, wide=10):
    n = len(types)
    th = [env.real('th%d' % i, lo=-wide, hi=wide) for i in range(n)]
    lo = [env.real('lo%d' % i, lo=-wide, hi=wide) for i in range(n)]
    hi = [env.real('hi%d' % i, lo=-wide, hi=wide) for i in range(n)]
    for i in range(n):
        env.assume(env.And(lo[i] <= th[i], th[i] <= hi[i]))
    ns = [turns(env, th[i], lo[i], hi[i], most) if types[i] == 0 else (0, 0) for i in range(n)]
    return th, lo, hi, ns


@scenario('C24', over=[dict(types=t) for t in ([0], [0, 0], [1, 0], [0, 1], [1, 1])], thorough_over=[dict(types=t) for t in ([0, 0, 0], [0, 1, 0])],
          budget=100, max_paths=600, t_budget=900, t_max_paths=4000, npts=40)
def equivalent(env, types):
    """Joint values and limits anywhere: exactly the combinations of turns inside the limits, without the given configuration."""
    np = env.np
    n = len(types)
    wide = 10 if n == 1 else 8
    th, lo, hi, ns = within(env, types, 3, wide)
    r = simple_robot(env, types, joint_lower_limit=np.array(lo), joint_upper_limit=np.array(hi))
    t0 = np.array(th)
    sols = env.rox.equivalent_configurations(r, [t0])
    equiv_goals(env, types, th, lo, hi, ns, sols)
    env.eq(t0, np.array(th), 'given configuration unchanged')


def fitting(env, th, lo, hi, most):
    """The turns k (from -most to most) with th + 2 pi k inside the limits, away from the exact boundary; limits at most 2 pi most apart."""
    e = 1e-6
    r = []
    for k in range(-most, most + 1):
        w = th + 2 * env.pi * k
        env.assume(env.And(env.Or(w >= lo + e, w <= lo - e), env.Or(w <= hi - e, w >= hi + e)))
        if bool(env.And(w >= lo, w <= hi)):
            r.append(k)
    return r


@scenario('C24', over=[dict(types=t, wide=w, out=o) for t, w, o in (([0], 8, 0), ([1], 8, 0), ([0, 0], 4.5, 0), ([0, 0], 4.5, 1), ([0, 1], 6, 0), ([0, 1], 6, 1), ([1, 0], 6, 1))],
          thorough_over=[dict(types=[0, 0], wide=8, out=o) for o in (0, 1)], budget=60, max_paths=600, t_budget=900, t_max_paths=4000, npts=40)
def equivalent_outside(env, types, wide, out):
    """The given configuration outside the limits at joint `out` (as the iterative solver may answer): what is reported is inside, and complete."""
    np = env.np
    n = len(types)
    most = 2 if wide > 5 else 1
    th = [env.real('th%d' % i, lo=-wide, hi=wide) for i in range(n)]
    lo = [env.real('lo%d' % i, lo=-wide, hi=wide) for i in range(n)]
    hi = [env.real('hi%d' % i, lo=-wide, hi=wide) for i in range(n)]
    for i in range(n):
        env.assume(lo[i] <= hi[i])
    env.assume(env.Or(th[out] <= lo[out] - 1e-6, th[out] >= hi[out] + 1e-6))
    ks = []
    for i in range(n):
        if types[i] == 0:
            ks.append(fitting(env, th[i], lo[i], hi[i], most))
        else:
            env.assume(env.And(*[env.Or(th[i] >= b + 1e-6, th[i] <= b - 1e-6) for b in (lo[i], hi[i])]))
            ks.append([0] if bool(env.And(th[i] >= lo[i], th[i] <= hi[i])) else [])
    want = [()]
    for k in ks:
        want = [c + (j,) for c in want for j in k]
    r = simple_robot(env, types, joint_lower_limit=np.array(lo), joint_upper_limit=np.array(hi))
    sols = env.rox.equivalent_configurations(r, [np.array(th)])
    env.require(len(sols) == len(want), 'as many configurations as there are combinations of turns inside the limits')
    for c in want:
        w = [th[i] + 2 * env.pi * c[i] for i in range(n)]
        env.require(env.Or(*[equal_conf(env, s, w, n) for s in sols]) if len(sols) else env.Not(True), 'turns %s are reported' % (c,))
    for s in sols:
        for i in range(n):
            env.require(env.And(s[i] <= hi[i] + 1e-9, s[i] >= lo[i] - 1e-9), 'inside the limits')


@scenario('C24', over=[dict(types=[0] * 3), dict(types=[0, 1, 0, 1, 0]), dict(types=[0, 0, 0, 0])], thorough_over=[dict(types=[0, 1, 0, 0, 0, 0])], budget=150)
def equivalent_many(env, types):
    """Several joints with one turn each way available or not, as chosen."""
    np = env.np
    n = len(types)
    th = [env.real('th%d' % i, lo=-0.4, hi=0.4) for i in range(n)]
    up = [env.choice('u%d' % i, (0, 1)) if i < 2 else i % 2 for i in range(n)]
    dn = [env.choice('d%d' % i, (0, 1)) if i in (0, 2) else 0 for i in range(n)]
    lo = [-0.5 - 6.29 * d for d in dn]
    hi = [0.5 + 6.29 * u for u in up]
    r = simple_robot(env, types, joint_lower_limit=np.array(lo), joint_upper_limit=np.array(hi))
    sols = env.rox.equivalent_configurations(r, [np.array(th)])
    equiv_goals(env, types, th, lo, hi, [(up[i], dn[i]) if types[i] == 0 else (0, 0) for i in range(n)], sols)


RELATED = [dict(types=t, rel=r) for t, r in (([0], 'o'), ([0], '+'), ([0], '-'), ([0, 0], 'oo'), ([0, 0], '+='), ([0, 0], '-='), ([0, 0], '=+'), ([0, 0], '+-'), ([0, 0], '=o'), ([0, 0], 'o+'),
                                             ([0, 1], 'oo'), ([0, 1], '+='), ([0, 1], '-='), ([0, 1], '+o'), ([1, 0], 'o+'), ([1, 0], '=-'), ([1, 0], '=o'), ([1, 0], 'o='), ([1, 0], '=='),
                                             ([0, 0], '=='), ([1, 0, 1], 'o+='), ([1, 0, 1], '=-o'), ([1, 1, 0], 'o=-'))]


@scenario('C24', over=RELATED, budget=60)
def equivalent_two(env, types, rel):
    """Two given configurations, every joint the same (=), a turn up or down (+ -) or elsewhere (o): neither is reported, all other variants of both are."""
    np = env.np
    n = len(types)
    lim = 7.0
    lo, hi = [-lim] * n, [lim] * n
    a = [env.real('a%d' % i, lo=-0.6, hi=0.6) for i in range(n)]
    b = [a[i] if c == '=' else a[i] + 2 * env.pi if c == '+' else a[i] - 2 * env.pi if c == '-' else env.real('b%d' % i, lo=1.2, hi=2.5) for i, c in enumerate(rel)]
    r = simple_robot(env, types, joint_lower_limit=np.array(lo), joint_upper_limit=np.array(hi))
    sols = env.rox.equivalent_configurations(r, [np.array(a), np.array(b)])
    want = []
    for g in (a, b):
        for k in combos([(2, 2) if t == 0 else (0, 0) for t in types]):
            w = [g[i] + 2 * env.pi * k[i] for i in range(n)]
            if all(bool(env.And(w[i] <= lim, w[i] >= -lim)) for i in range(n)):
                want.append(w)
    for w in want:
        given = env.Or(equal_conf(env, w, a, n), equal_conf(env, w, b, n))
        found = env.Or(*[equal_conf(env, s, w, n) for s in sols]) if len(sols) else env.Not(True)
        env.require(env.Implies(env.Not(given), found), 'every other variant is reported')
    for s in sols:
        env.require(env.Not(equal_conf(env, s, a, n)), 'the first given configuration is not reported')
        env.require(env.Not(equal_conf(env, s, b, n)), 'the second given configuration is not reported')
        env.require(env.Or(*[equal_conf(env, s, w, n) for w in want]), 'only variants are reported')


@scenario('C24', over=[dict(types=[0], low=9.), dict(types=[0, 1], low=9.), dict(types=[0, 0], low=3.)], thorough_over=[dict(types=[0, 0], low=9.)],
          budget=60, max_paths=400, t_budget=1500, t_max_paths=20000)
def equivalent_sorted(env, types, low):
    """With last positions: the same configurations, sorted by distance."""
    np = env.np
    n = len(types)
    lim = 9.0
    down = 1 if low > 7 else 0
    th = [env.real('th%d' % i, lo=-2.5, hi=2.5) for i in range(n)]
    last = [env.real('l%d' % i, lo=-9, hi=9) for i in range(n)]
    r = simple_robot(env, types, joint_lower_limit=np.array([-low] * n), joint_upper_limit=np.array([lim] * n))
    l0 = np.array(last)
    sols = env.rox.equivalent_configurations(r, [np.array(th)], l0)
    equiv_goals(env, types, th, [-low] * n, [lim] * n, [(1, down) if t == 0 else (0, 0) for t in types], sols)
    d = [sum((s[i] - last[i]) * (s[i] - last[i]) for i in range(n)) for s in sols]
    for a, b in zip(d, d[1:]):
        env.require(a <= b + 1e-9, 'sorted by distance')
    env.eq(l0, np.array(last), 'last positions unchanged')


@scenario('C24', over=[dict(types=t, kind=k) for t in ([0], [1, 0]) for k in ('integers', 'list')], budget=60)
def equivalent_containers(env, types, kind):
    """A configuration of whole numbers, or as a list: the same answers."""
    import numpy
    n = len(types)
    th = [env.choice('th%d' % i, (0, 2, -3)) for i in range(n)]
    lo = [env.real('lo%d' % i, lo=-10, hi=10) for i in range(n)]
    hi = [env.real('hi%d' % i, lo=-10, hi=10) for i in range(n)]
    for i in range(n):
        env.assume(env.And(lo[i] <= th[i], th[i] <= hi[i]))
    ns = [turns(env, th[i], lo[i], hi[i], 2) if types[i] == 0 else (0, 0) for i in range(n)]
    lim = list if kind == 'list' else env.np.array
    r = simple_robot(env, types, joint_lower_limit=lim(lo), joint_upper_limit=lim(hi))
    sols = env.rox.equivalent_configurations(r, [numpy.array(th) if kind == 'integers' else list(th)])
    equiv_goals(env, types, th, lo, hi, ns, sols)


@scenario('C24', over=[dict(last=l) for l in (False, True)])
def equivalent_none(env, last):
    """No given configuration, or none with an alternative: an empty list."""
    np = env.np
    lo, hi = env.real('lo', lo=-3, hi=-1), env.real('hi', lo=1, hi=3)
    r = simple_robot(env, [0, 1], joint_lower_limit=np.array([lo, lo]), joint_upper_limit=np.array([hi, 100 * hi]))
    a = np.array([env.real('a', lo=-1, hi=1), env.real('b', lo=-1, hi=100)])
    l = (np.array([env.real('l', lo=-5, hi=5), 0.0]),) if last else ()
    env.require(len(env.rox.equivalent_configurations(r, [], *l)) == 0, 'empty for no configuration')
    env.require(len(env.rox.equivalent_configurations(r, [a], *l)) == 0, 'empty when no turn fits')


# ---------------------------------------------------------------- C25
def exact_pinv(env):
    """Pseudo-inverse of a matrix of full column rank with one column or with orthonormal columns; anything else is arbitrary."""
    if not env.symbolic:
        return
    np = env.np
    ctx = env.ctx

    def hook(a):
        g = np.matmul(a.T, a)
        n = g.shape[0]
        if all(core.Sym.of(g[i, j] - (1 if i == j else 0)).iszero() for i in range(n) for j in range(n)):
            return a.T
        if n == 1:
            return a.T / g[0, 0]
        ctx.pinv_hook = None
        try:
            return np.linalg.pinv(a)
        finally:
            ctx.pinv_hook = hook
    ctx.pinv_hook = hook


def near_pose(env, r, q, types, H, P, m):
    """A desired pose at a small displacement from the pose of q."""
    np = env.np
    R, p = poe(env, H, P, types, q, m)
    k, th = env.unit3('k'), env.angle('e', d=2, lo=-0.5, hi=0.5, special=(0, 1e-5, -1e-5))
    d = env.vec('d', lo=-0.01, hi=0.01, samples=(0, 1e-5, -1e-5))
    Rd = np.matmul(R, rodrigues(np, k, np.cos(th), np.sin(th)))
    return env.rox.Transform(Rd, p + np.matmul(R, d)), k, th, d


CONF = [dict(types=t, axes=a, aux=x) for t, a, x in (([0], 'z', ''), ([1], 'x', ''), ([0, 0], 'zy', 't'), ([1, 0], 'xz', 'b'), ([0, 1, 0], 'zyx', 'f'),
                                                      ([0] * 6, 'zyyxyx', ''))]


def iter_robot(env, types, axes, aux, **kw):
    from checks.c09_model import robot
    return robot(env, types, axes, aux, **kw)


@scenario('C25', over=CONF, budget=60, npts=40)
def convergence(env, types, axes, aux):
    """One evaluation: convergence is reported exactly when the pose error is within the tolerance, and the start is what is returned then."""
    np, rox = env.np, env.rox
    if env.symbolic:
        # one evaluation: only the sign of the first joint's step matters
        def hook(a):
            x = np.zeros((a.shape[1], a.shape[0]))
            x[0, :] = env.array([0.25, -0.125, 0.5, 0.125, 0.25, 0.375])
            return x
        env.ctx.pinv_hook = hook
    n = len(types)
    r, H, P, m = iter_robot(env, types, axes, aux)
    q = [env.angle('q%d' % i, lo=-20, hi=20) if t == 0 else env.real('q%d' % i, lo=-50, hi=50) for i, t in enumerate(types)]
    T, k, th, d = near_pose(env, r, q, types, H, P, m)
    q0 = np.array(q)
    P0 = P.copy()
    s2 = np.sin(th / 2)
    tol = 1e-4
    env.assume(env.Or(s2 == 0, s2 >= 1e-5, s2 <= -1e-5))
    for i in range(3):
        x = s2 * k[i]
        for y in (x, d[i]):
            env.assume(env.Or(y >= 1.001e-4, env.And(y <= 0.999e-4, y >= -0.999e-4), y <= -1.001e-4))
    ok, sols = rox.iterative_invkin(r, T, q0, max_steps=1)
    small = env.And(*[env.And(y <= tol, y >= -tol) for y in [d[i] for i in range(3)] + [s2 * k[i] for i in range(3)]])
    if bool(ok):
        env.require(small, 'convergence is reported only within the tolerance')
        env.require(len(sols) == 1, 'one configuration')
        s = sols[0]
        for i, t in enumerate(types):
            if t == 0:
                env.same_angle(s[i], q[i], 'joint %d up to full turns' % i)
            else:
                env.eq(s[i], q[i], 'prismatic joint as computed')
    else:
        env.require(env.Not(env.And(small, s2 == 0)), 'with the orientation met and the position within the tolerance convergence is reported')
    env.eq(q0, np.array(q), 'start unchanged')
    env.eq(r.P, P0, 'robot unchanged')


@scenario('C25', over=[dict(types=t, axes=a, about=b) for t, a, b in (([0], 'z', 'x'), ([0, 0], 'zy', 'y'), ([0, 1, 0], 'zyx', 'z'), ([0], 'x', 'Y'))], budget=60, npts=40)
def convergence_turn(env, types, axes, about):
    """The orientation error alone, turned about one axis: convergence is reported exactly within the tolerance."""
    np, rox = env.np, env.rox
    if env.symbolic:
        env.ctx.pinv_hook = lambda a: np.zeros((a.shape[1], a.shape[0])) + env.array([0.25, -0.125, 0.5, 0.125, 0.25, 0.375])
    r, H, P, m = iter_robot(env, types, axes, '')
    q = [env.angle('q%d' % i, lo=-20, hi=20) if t == 0 else env.real('q%d' % i, lo=-50, hi=50) for i, t in enumerate(types)]
    R, p = poe(env, H, P, types, q, m)
    th = env.angle('e', d=2, lo=-4, hi=4, special=(0, 1e-5, -1e-5, 1.5e-4, -1.5e-4, 3e-4, 3.1415, 3.14155, -3.1415, 3.141592653589793))
    s2 = np.sin(th / 2)
    env.assume(env.Or(s2 == 0, s2 >= 1e-5, s2 <= -1e-5))
    env.assume(env.Or(s2 >= 1.001e-4, env.And(s2 <= 0.999e-4, s2 >= -0.999e-4), s2 <= -1.001e-4))
    Rd = np.matmul(R, rodrigues(np, env.array(list(AX[about])), np.cos(th), np.sin(th)))
    ok, sols = rox.iterative_invkin(r, rox.Transform(Rd, p), np.array(q), max_steps=1)
    small = env.And(s2 <= 1e-4, s2 >= -1e-4)
    if bool(ok):
        env.require(small, 'convergence is reported only within the tolerance')
    else:
        env.require(env.Not(small), 'within the tolerance convergence is reported')


@scenario('C25', over=[dict(axes=a, kp=k, steps=s, tol=t) for t, a, k, s in ((1e-4, 'x', 0.3, 1), (0, 'xy', 0.3, 2), (1e-4, 'xyz', 0.3, 3), (1e-5, 'zx', 1, 2), (1e-4, 'Yz', 1, 3), (1e-3, 'xyz', 0.5, 2), (0.1, 'zy', 0.3, 2))],
          thorough_over=[dict(axes='xyz', kp=0.3, steps=6, tol=0), dict(axes='xyz', kp=0.9, steps=5, tol=1e-3)], budget=60, npts=40)
def sliding(env, axes, kp, steps, tol):
    """Arms of sliding joints, where the iteration is exactly computable: what is returned as converged has the pose, with any gain and number of steps."""
    np, rox = env.np, env.rox
    exact_pinv(env)
    n = len(axes)
    types = [1] * n
    H = colmat(np, [list(AX[a]) for a in axes])
    P = np.array([env.vec('p%d' % i, lo=-1, hi=1) for i in range(n + 1)]).T
    r = rox.Robot(H, P, types)
    q = [env.real('q%d' % i, lo=-20, hi=20) for i in range(n)]
    e = [env.real('e%d' % i, lo=-10 * (tol or 1e-4), hi=10 * (tol or 1e-4), samples=(0, tol, 2 * tol, -1.2 * tol)) for i in range(n)]
    goal = [q[i] + e[i] for i in range(n)]
    R, p = poe(env, H, P, types, goal, {})
    q0 = np.array(q)
    ok, sols = rox.iterative_invkin(r, rox.Transform(R, p), q0, max_steps=steps, Kp=kp * np.eye(3), **(dict(tol=tol) if tol else {}))
    tol = tol or 1e-4
    if bool(ok):
        env.require(len(sols) == 1, 'one configuration')
        Rs, ps = poe(env, H, P, types, sols[0], {})
        env.eq(Rs, R, 'orientation of the answer')
        for i in range(3):
            env.require(env.And(ps[i] - p[i] <= 1.001 * tol, p[i] - ps[i] <= 1.001 * tol), 'position of the answer within the tolerance')
    else:
        last = [e[i] * (1 - kp) ** (steps - 1) for i in range(n)]
        env.require(env.Or(*[env.Or(x >= 0.999 * tol, x <= -0.999 * tol) for x in last]), 'failure is reported only when the error is still too large')
    env.eq(q0, np.array(q), 'start unchanged')


@scenario('C25', over=[dict(types=t, k=k, steps=s) for t, k, s in (([0], 0.3, 1), ([0, 1], 0.3, 1))],
          thorough_over=[dict(types=[0], k=0.3, steps=2), dict(types=[0, 1], k=1, steps=2)], budget=60, npts=40, t_budget=900)
def turning(env, types, k, steps):
    """A turning joint (and a slide along its axis), exactly computable: what is returned as converged has the pose."""
    np, rox = env.np, env.rox
    if env.symbolic:
        # Jacobian columns of these arms are orthonormal
        env.ctx.pinv_hook = lambda a: a.T
    n = len(types)
    H = colmat(np, [[0, 0, 1]] * n)
    P = np.array([[0, 0, env.real('p%d' % i, lo=-1, hi=1)] for i in range(n + 1)]).T
    r = rox.Robot(H, P, types)
    q = [env.angle('q%d' % i, d=2, lo=-6, hi=6, special=(0, 1e-5, 1e-4, 3.1415, 3.14155)) if t == 0 else env.real('q%d' % i, lo=-2, hi=2) for i, t in enumerate(types)]
    goal = [0] * n
    R, p = poe(env, H, P, types, goal, {})
    ok, sols = rox.iterative_invkin(r, rox.Transform(R, p), np.array(q), max_steps=steps, KR=k * np.eye(3), Kp=k * np.eye(3))
    if bool(ok):
        env.require(len(sols) == 1, 'one configuration')
        d = np.cos(sols[0][0] - goal[0])
        # sin^2(half the error) within the tolerance squared
        env.require(1 - d <= 2.01e-8, 'orientation of the answer within the tolerance')
        if n > 1:
            x = sols[0][1] - goal[1]
            env.require(env.And(x <= 1.001e-4, x >= -1.001e-4), 'position of the answer within the tolerance')


@scenario('C25', over=[dict(kind=k, types=t) for k in ('list', 'tuple', 'column') for t in ([0], [0, 1, 0])])
def start_containers(env, kind, types):
    """The start may be a list, tuple or column; limits of the robot do not matter."""
    np, rox = env.np, env.rox
    exact_pinv(env)
    n = len(types)
    axes = 'zyx'[:n]
    r, H, P, m = iter_robot(env, types, axes, '', joint_lower_limit=np.array([-0.1] * n), joint_upper_limit=np.array([0.1] * n))
    q = [env.angle('q%d' % i, lo=-3, hi=3) if t == 0 else env.real('q%d' % i, lo=-5, hi=5) for i, t in enumerate(types)]
    R, p = poe(env, H, P, types, q, m)
    start = {'list': list(q), 'tuple': tuple(q), 'column': np.reshape(np.array(q), (n, 1))}[kind]
    ok, sols = rox.iterative_invkin(r, rox.Transform(R, p), start, max_steps=1)
    env.require(bool(ok), 'converged at once')
    for i in range(n):
        if types[i] == 0:
            env.same_angle(sols[0][i], q[i], 'joint')
        else:
            env.eq(sols[0][i], q[i], 'prismatic joint')


@scenario('C25', over=[dict(types=t) for t in ([0], [0, 0], [1, 0], [0] * 6)])
def no_steps(env, types):
    """Without any step nothing is claimed to have converged."""
    np, rox = env.np, env.rox
    n = len(types)
    r, H, P, m = iter_robot(env, types, 'zyxzyx'[:n], '')
    q = [env.angle('q%d' % i, lo=-3, hi=3) if t == 0 else env.real('q%d' % i, lo=-5, hi=5) for i, t in enumerate(types)]
    ok, sols = rox.iterative_invkin(r, rox.Transform(env.frame('R'), env.vec('p')), np.array(q), max_steps=0)
    env.require(not bool(ok), 'not converged')


# ---------------------------------------------------------------- C26
class Flat(list):
    pass


def flat(np, x, out=None):
    if isinstance(x, Flat):
        return x
    out = Flat() if out is None else out
    if x is None or isinstance(x, str):
        out.append(x)
    elif hasattr(x, 'R') and hasattr(x, 'p'):
        flat(np, x.R, out)
        flat(np, x.p, out)
        out += [x.parent_frame_id, x.child_frame_id]
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat(np, y, out)
    elif len(np.shape(x)) == 0:
        out.append(x)
    else:
        out.append('shape %s' % (tuple(np.shape(x)),))
        out += list(np.array(x).reshape(-1))
    return out


def same(env, a, b, label):
    np = env.np
    a, b = flat(np, a), flat(np, b)
    if len(a) != len(b):
        env.fail(label + ': another number of values')
        return
    for x, y in zip(a, b):
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            env.require(x == y, label + ': another name or shape')
        elif not env.isfinite(x) and not env.isfinite(y):
            # not a number both times (where that is allowed at all is another property's concern)
            continue
        else:
            env.eq(x, y, label, ctol=1e-12)


def snapshot(np, args):
    return [a.copy() if hasattr(a, 'copy') else a for a in args]


def args_for(env, f, n):
    """One set of symbolic arguments for function f; n names the set."""
    np = env.np
    if f in ('hat', 'screw_matrix', 'p'):
        return [env.vec('v' + n)]
    if f == 'invhat':
        return [np.array([env.vec('m%d%s' % (i, n)) for i in range(3)])]
    if f in ('rot', 'rot2q'):
        return [env.unit3('k' + n), env.angle('t' + n, d=2)]
    if f in ('q2R', 'quatcomplement', 'quatproduct', 'quatjacobian'):
        return [env.unitquat('q' + n)]
    if f == 'q2rot':
        q = env.unitquat('q' + n)
        x = q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
        env.assume(x >= 1e-4)
        return [q]
    if f == 'R2rpy':
        a = [env.angle('%s%s' % (c, n), lo=-1.4, hi=1.4) for c in 'rpy']
        x, y, z = [rodrigues(np, env.array(e), np.cos(t), np.sin(t)) for e, t in zip(([1, 0, 0], [0, 1, 0], [0, 0, 1]), a)]
        return [np.matmul(np.matmul(z, y), x)]
    if f in ('R2q', 'R2rot'):
        q = env.unitquat('q' + n)
        env.assume(q[0] >= 0.51)
        R = quat(env, q)
        if f == 'R2rot':
            env.assume(q[0] <= 0.99)
        return [R]
    if f == 'rpy2R':
        return [np.array([env.angle('%s%s' % (c, n)) for c in 'rpy'])]
    if f == 'slerp':
        c, s = env.angle('c' + n, lo=0.1, hi=1.4, d=2), None
        F = env.unitquat('q' + n)
        q1 = np.array([np.cos(c), np.sin(c), 0, 0])
        return [F, np.matmul(qmat(np, F), q1), 0.5]
    if f == 'subproblem1':
        k = env.array([0, 0, 1])
        t = env.angle('t' + n, d=2, lo=0.1, hi=3)
        a = env.real('a' + n, lo=0.1, hi=2)
        h = env.real('h' + n, lo=-2, hi=2)
        return [np.array([a, 0, h]), np.array([a * np.cos(t), a * np.sin(t), h]), k]
    if f == 'subproblem4':
        return [env.vec('p' + n, lo=0.1, hi=1), env.vec('q' + n, lo=0.1, hi=1), env.array([0, 0, 1]), env.real('d' + n, lo=0, hi=0.0625)]
    if f == 'subproblem0':
        a, b, t = env.real('a' + n, lo=0.1, hi=2), env.real('b' + n, lo=0.1, hi=2), env.angle('t' + n, d=2, lo=0.1, hi=3)
        return [np.array([a, 0, 0]), np.array([b * np.cos(t), b * np.sin(t), 0]), env.array([0., 0, 1])]
    if f == 'subproblem2':
        k1, k2 = env.array([0., 0, 1]), env.array([0., 1, 0])
        c = env.vec('c' + n, lo=0.1, hi=1)
        t1 = env.angle('t' + n, lo=0.1, hi=3)
        return [c, np.matmul(rodrigues(np, k1, np.cos(t1), np.sin(t1)), c), k1, k2]
    if f == 'subproblem3':
        a, b, h = env.real('a' + n, lo=0.1, hi=2), env.real('b' + n, lo=0.1, hi=2), env.real('h' + n, lo=-1, hi=1)
        t = env.angle('t' + n, lo=0.1, hi=3)
        d2 = a * a + b * b + 2 * a * b * np.cos(t) + h * h
        env.assume(d2 >= 1e-3)
        return [np.array([a, 0, h]), np.array([b * np.cos(t), b * np.sin(t), 0]), env.array([0., 0, 1]), np.sqrt(d2)]
    raise KeyError(f)


def quat(env, q):
    from symx.env import quatR
    return quatR(env.np, q)


def qmat(np, q):
    return np.array([[q[0], -q[1], -q[2], -q[3]], [q[1], q[0], -q[3], q[2]], [q[2], q[3], q[0], -q[1]], [q[3], -q[2], q[1], q[0]]])


FUNCS = ['hat', 'invhat', 'rot', 'R2rot', 'screw_matrix', 'q2R', 'R2q', 'q2rot', 'rot2q', 'quatcomplement', 'quatproduct', 'quatjacobian', 'rpy2R', 'R2rpy',
         'slerp', 'subproblem0', 'subproblem1', 'subproblem2', 'subproblem3', 'subproblem4']


@scenario('C26', over=[dict(f=f) for f in FUNCS], budget=60, max_paths=200)
def pure_conversions(env, f):
    """f(a), f(b), f(a): the third answer is the first, the second is that of a freshly loaded library, and no argument is changed."""
    np = env.np
    fn = getattr(env.rox, f)
    a, b = args_for(env, f, 'a'), args_for(env, f, 'b')
    a0, b0 = snapshot(np, a), snapshot(np, b)
    x = fn(*a)
    x0 = flat(np, x)
    y = fn(*b)
    same(env, x, x0, 'an earlier answer is not changed by a later call')
    z = fn(*a)
    same(env, z, x0, 'same answer again')
    w = getattr(env.fresh(), f)(*b)
    same(env, y, w, 'answer of a fresh library')
    same(env, a, a0, 'arguments unchanged')
    same(env, b, b0, 'arguments unchanged')
    if hasattr(x, 'shape') and len(x.shape):
        # the answer belongs to the caller: writing into it changes nothing else
        x[...] = 77
        same(env, a, a0, 'arguments do not share memory with the answer')
        same(env, fn(*a), x0, 'same answer after the first one was overwritten')


def rob(env, rox, n, types, axes, aux, lim):
    np = env.np
    H = colmat(np, [list(AX[a]) for a in axes])
    P = np.array([env.vec('p%d%s' % (i, n), lo=-1, hi=1) for i in range(len(types) + 1)]).T
    kw = {}
    if 't' in aux:
        kw.update(R_tool=env.frame('Rt' + n), p_tool=env.vec('pt' + n))
    if 'f' in aux:
        kw.update(T_flange=rox.Transform(env.frame('Rf' + n), env.vec('pf' + n)))
    if 'b' in aux:
        kw.update(T_base=rox.Transform(env.frame('Rb' + n), env.vec('pb' + n)))
    if lim:
        kw.update(joint_lower_limit=np.array([-100.] * len(types)), joint_upper_limit=np.array([100.] * len(types)))
    return lambda lib: lib.Robot(H, P, list(types), **{k: (lib.Transform(v.R, v.p) if k[0] == 'T' else v) for k, v in kw.items()})


def robstate(np, r):
    return [getattr(r, k) for k in ('H', 'P', 'joint_lower_limit', 'joint_upper_limit', 'R_tool', 'p_tool', 'T_flange', 'T_base')] + [list(r.joint_type)]


PURE = [dict(types=t, axes=a, aux=x, lim=l) for t, a, x, l in (
    ([0], 'z', 'tfb', True), ([1], 'x', '', False), ([0, 1, 0], 'zxy', '', True), ([0, 0], 'zy', 'tfb', False), ([1, 0], 'yz', 'b', True),
    ([1, 1, 0], 'xYz', 't', False), ([0, 0, 1], 'zYx', 'f', False), ([0] * 6, 'zyyxyx', '', True), ([1, 0, 0, 1, 0, 0], 'zyyxyx', 'tb', False))]


@scenario('C26', over=[dict(c, f=f) for f in ('fwdkin', 'robotjacobian') for c in PURE + [dict(types=[2, 3, 0], axes='zxy', aux='b', lim=True)]
                       if f == 'fwdkin' or c['types'][0] != 2], budget=60)
def pure_kinematics(env, f, types, axes, aux, lim):
    """Two robots used in turn: answers are those of a fresh library, and neither robot nor joint vector changes."""
    np, rox = env.np, env.rox
    n = len(types)
    fa, fb = rob(env, rox, 'a', types, axes, aux, lim), rob(env, rox, 'b', types, axes, aux, lim)
    A, Bo = fa(rox), fb(rox)
    qa = np.array([env.angle('qa%d' % i, lo=-7, hi=7) if t in (0, 2) else env.real('qa%d' % i, lo=-2, hi=2) for i, t in enumerate(types)])
    qb = np.array([env.angle('qb%d' % i, lo=-7, hi=7) if t in (0, 2) else env.real('qb%d' % i, lo=-2, hi=2) for i, t in enumerate(types)])
    s = flat(np, robstate(np, A))
    q0 = qa.copy()
    fn = getattr(rox, f)
    x = flat(np, fn(A, qa))
    y = fn(Bo, qb)
    y2 = fn(A, qb)
    z = fn(A, qa)
    same(env, z, x, 'same answer again')
    lib = env.fresh()
    same(env, y, getattr(lib, f)(fb(lib), qb), 'answer for the second robot')
    same(env, y2, getattr(lib, f)(fa(lib), qb), 'answer for the second joint vector')
    same(env, robstate(np, A), s, 'robot unchanged')
    env.eq(qa, q0, 'joint vector unchanged')
    if f == 'fwdkin':
        # the answer belongs to the caller
        z.R[...] = 77
        z.p[...] = 77
        same(env, robstate(np, A), s, 'robot does not share memory with the answer')
        same(env, fn(A, qa), x, 'same answer after the last one was overwritten')
    else:
        z[...] = 77
        same(env, robstate(np, A), s, 'robot does not share memory with the answer')
        same(env, fn(A, qa), x, 'same answer after the last one was overwritten')


@scenario('C26', over=[dict(op=o) for o in ('mul', 'inv', 'eq', 'isclose', 'str', 'repr')])
def pure_transforms(env, op):
    """Operations on transforms, one after the other: operands keep their values and share no memory with the answer."""
    np, rox = env.np, env.rox
    A, B = rox.Transform(env.frame('A'), env.vec('pa'), 'w', 'a'), rox.Transform(env.frame('B'), env.vec('pb'), 'a', 'b')
    f = {'mul': lambda: A * B, 'inv': lambda: A.inv(), 'eq': lambda: A == B, 'isclose': lambda: A.isclose(B), 'str': lambda: str(A), 'repr': lambda: repr(A)}[op]
    a, b = flat(np, A), flat(np, B)
    x = f()
    if op in ('str', 'repr', 'eq', 'isclose'):
        if op in ('str', 'repr'):
            env.require(isinstance(x, str), 'text')
    else:
        x0 = flat(np, x)
        same(env, f(), x0, 'same answer again')
        x.R[...] = 77
        x.p[...] = 77
        same(env, f(), x0, 'same answer after the first one was overwritten')
    same(env, A, a, 'operand unchanged')
    same(env, B, b, 'operand unchanged')


@scenario('C26', over=[dict(types=t, given=g) for t in ([0], [0, 1], [1, 0]) for g in (1, 2)], budget=60, max_paths=200)
def pure_equivalent(env, types, given):
    """Equivalent configurations twice: same answer, robot and configurations unchanged, no memory shared."""
    np, rox = env.np, env.rox
    n = len(types)
    r = simple_robot(env, types, joint_lower_limit=np.array([-7.] * n), joint_upper_limit=np.array([7.] * n))
    g = [np.array([env.real('a%d_%d' % (k, i), lo=-0.6 + 2 * k, hi=0.6 + 2 * k) for i in range(n)]) for k in range(given)]
    s, g0 = flat(np, robstate(np, r)), flat(np, g)
    x = rox.equivalent_configurations(r, g)
    x0 = flat(np, x)
    env.require(len(x) > 0, 'there are some')
    for v in x:
        v[...] = 77
    same(env, g, g0, 'configurations do not share memory with the answer')
    env.require(len(g) == given, 'list of configurations unchanged')
    same(env, robstate(np, r), s, 'robot unchanged')
    same(env, rox.equivalent_configurations(r, g), x0, 'same answer again')


@scenario('C26', over=[dict(types=t, axes=a, aux=x) for t, a, x in (([0], 'z', ''), ([1], 'x', 't'), ([1, 1], 'xz', 'b'))], budget=60, npts=40)
def pure_iterative(env, types, axes, aux):
    """The iterative solver, one step, from two starts: same answer again, arguments and robot unchanged, default gains too."""
    np, rox = env.np, env.rox
    if env.symbolic:
        env.ctx.pinv_hook = lambda a: np.zeros((a.shape[1], a.shape[0])) + env.array([0.25, -0.125, 0.5, 0.125, 0.25, 0.375])
    r = rob(env, rox, 'a', types, axes, aux, False)(rox)
    q = np.array([env.angle('q%d' % i, lo=-3, hi=3) if t == 0 else env.real('q%d' % i, lo=-2, hi=2) for i, t in enumerate(types)])
    T0 = rox.fwdkin(r, q)
    T = rox.Transform(T0.R, T0.p + np.array([env.choice('e', (0, 1e-3)), 0, 0]), 'a', 'b')
    Kp, KR = 0.3 * np.eye(3), 0.2 * np.eye(3)
    steps = 2 if all(t == 1 for t in types) else 1
    v = [robstate(np, r), T, q, Kp, KR]
    v0 = flat(np, v)
    x = rox.iterative_invkin(r, T, q, max_steps=steps, Kp=Kp, KR=KR)
    x0 = flat(np, [bool(x[0]), list(x[1])])
    same(env, v, v0, 'arguments unchanged')
    y = rox.iterative_invkin(r, T, q, max_steps=steps)
    y0 = flat(np, [bool(y[0]), list(y[1])])
    x = rox.iterative_invkin(r, T, q, max_steps=steps, Kp=Kp, KR=KR)
    same(env, [bool(x[0]), list(x[1])], x0, 'same answer again')
    y = rox.iterative_invkin(r, T, q, max_steps=steps)
    same(env, [bool(y[0]), list(y[1])], y0, 'same answer again with the default gains')
    same(env, v, v0, 'arguments unchanged')


@scenario('C26', over=[dict(solver=s, last=l, aux=x) for s in ('opw', 'ur') for l, x in ((False, ''), (True, ''), (False, 'b'), (False, 't'), (False, 'f'), (False, 'tfb'))], budget=60, max_paths=300)
def pure_inverse(env, solver, last, aux):
    """Inverse kinematics twice with the forward kinematics in between."""
    np, rox = env.np, env.rox
    axes, r, H, P, f, reg = arm(env, solver)
    q, qs = configuration(env, solver, reg, H, P)
    m = {}
    if 't' in aux:
        r.R_tool, r.p_tool = m['R_tool'], m['p_tool'] = env.frame('Rt'), env.vec('pt', lo=-1, hi=1)
    for x, k in (('f', 'T_flange'), ('b', 'T_base')):
        if x in aux:
            m[k] = rox.Transform(env.frame('R' + x), env.vec('p' + x, lo=-1, hi=1))
            setattr(r, k, m[k])
    R, p = poe(env, H, P, [0] * 6, q, m)
    T = rox.Transform(R, p, 'a', 'b')
    s, t = flat(np, robstate(np, r)), flat(np, T)
    l = (np.array([x + 0.1 for x in q]),) if last else ()
    hints(env, solver, axes, q, qs)
    x = flat(np, f(r, T, *l))
    rox.fwdkin(r, np.array(q))
    rox.robotjacobian(r, np.array(q))
    z = f(r, T, *l)
    same(env, z, x, 'same answer again')
    same(env, robstate(np, r), s, 'robot unchanged')
    same(env, T, t, 'pose unchanged')
    if last:
        env.eq(l[0], np.array([x + 0.1 for x in q]), 'last positions unchanged')
