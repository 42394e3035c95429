"""C09-C15: rigid transforms, robot description, forward kinematics, Jacobian, limits, tool/base/flange transforms."""
from symx.reg import scenario
from symx.env import quatR


def cross(np, a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def rodrigues(np, k, c, s):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return c * np.eye(3) + s * K + (1 - c) * np.outer(k, k)


# ---------------------------------------------------------------- C09
def tf(env, n, a=None, b=None, shape='flat'):
    R, p = env.frame('R' + n), env.vec('p' + n)
    T = env.rox.Transform(R, np_col(env, p) if shape == 'column' else (list(p) if shape == 'list' else p), a, b)
    return T, R, p


def np_col(env, p):
    return env.np.reshape(p, (3, 1))


NAMES = [('world', 'mid', 'mid', 'tool'), (None, None, 'mid', 'tool'), ('world', 'mid', None, None), (None, 'mid', 'mid', None), (None, None, None, None),
         ('world', None, 'mid', 'tool'), ('a', 'b', 'c', 'd')]


@scenario('C09', over=[{'shape': s} for s in ('flat', 'column', 'list')])
def compose(env, shape):
    """Product of two transforms, and the names of the frames."""
    np = env.np
    na, nb, ma, mb = env.choice('names', NAMES)
    A, Ra, pa = tf(env, 'a', na, nb, shape)
    B, Rb, pb = tf(env, 'b', ma, mb)
    C = A * B
    env.eq(C.R, np.matmul(Ra, Rb), 'rotation')
    env.eq(C.p, pa + np.matmul(Ra, pb), 'position')
    env.require(C.parent_frame_id == na and C.child_frame_id == mb, 'frame names of a product')
    # the operands are unchanged
    env.eq(A.R, Ra, 'left operand R')
    env.eq(A.p, pa, 'left operand p')
    env.eq(B.R, Rb, 'right operand R')
    env.eq(B.p, pb, 'right operand p')
    x = env.vec('x')
    env.eq(np.matmul(C.R, x) + C.p, np.matmul(Ra, np.matmul(Rb, x) + pb) + pa, 'acts as composition')


@scenario('C09')
def inverse(env):
    """Inverse, on both sides, with swapped names."""
    np = env.np
    na, nb = env.choice('names', [('world', 'tool'), (None, 'tool'), ('world', None), (None, None), ('a', 'a')])
    A, Ra, pa = tf(env, 'a', na, nb)
    I = A.inv()
    env.require(I.parent_frame_id == nb and I.child_frame_id == na, 'frame names of an inverse')
    env.require(A.parent_frame_id == na and A.child_frame_id == nb, 'operand frame names')
    for X, w in ((A * I, 'A inv(A)'), (I * A, 'inv(A) A')):
        env.eq(X.R, np.eye(3), w + ' R')
        env.eq(X.p, np.zeros(3), w + ' p')
    env.eq(A.R, Ra, 'operand R')
    env.eq(A.p, pa, 'operand p')
    J = I.inv()
    env.eq(J.R, Ra, 'involution R')
    env.eq(J.p, pa, 'involution p')


@scenario('C09', over=[dict(shape=s) for s in ('flat', 'column')])
def owned(env, shape):
    """A transform keeps its value when the arrays it was built from are reused, and its inverse and products keep theirs when it is changed."""
    np = env.np
    R, p = env.frame('Ra'), env.vec('pa')
    a, b = np.array(R), np.array(p)
    T = env.rox.Transform(a, b if shape == 'flat' else np.reshape(b, (3, 1)))
    i, j = env.choice('row', [0, 1, 2]), env.choice('col', [0, 1, 2])
    a[i, j] = a[i, j] + 1
    b[i] = b[i] + 1
    env.eq(T.R, R, 'rotation after the array it was built from was reused')
    env.eq(T.p, p, 'position after the array it was built from was reused')
    E = env.rox.identity_transform()
    I, L, M = T.inv(), T * E, E * T
    T.R[i, j] = T.R[i, j] + 1
    T.p[i] = T.p[i] + 1
    env.eq(E.R, np.eye(3), 'other operand')
    env.eq(E.p, np.zeros(3), 'other operand')
    env.eq(I.R, R.T, 'rotation of the inverse after the transform was changed')
    env.eq(I.p, -np.matmul(R.T, p), 'position of the inverse after the transform was changed')
    for X in (L, M):
        env.eq(X.R, R, 'rotation of the product after an operand was changed')
        env.eq(X.p, p, 'position of the product after an operand was changed')


@scenario('C09')
def assoc_identity(env):
    """Associativity and the neutral element."""
    np = env.np
    A, B, C = tf(env, 'a')[0], tf(env, 'b')[0], tf(env, 'c')[0]
    L, R = (A * B) * C, A * (B * C)
    env.eq(L.R, R.R, 'associative R')
    env.eq(L.p, R.p, 'associative p')
    E = env.rox.identity_transform()
    for X in (E * A, A * E):
        env.eq(X.R, A.R, 'identity R')
        env.eq(X.p, A.p, 'identity p')
    P = (A * B).inv()
    Q = B.inv() * A.inv()
    env.eq(P.R, Q.R, 'inverse of product R')
    env.eq(P.p, Q.p, 'inverse of product p')


@scenario('C09', over=[{'bad': b} for b in ('R23', 'R4', 'p2', 'p4', 'p13', 'p33')])
def shapes_refused(env, bad):
    """Parts of wrong shape are refused."""
    np = env.np
    R, p = np.eye(3), np.zeros(3)
    if bad == 'R23':
        R = np.zeros((2, 3))
    elif bad == 'R4':
        R = np.eye(4)
    elif bad == 'p2':
        p = np.zeros(2)
    elif bad == 'p4':
        p = np.zeros(4)
    elif bad == 'p13':
        p = np.zeros((1, 3))
    else:
        p = np.zeros((3, 3))
    try:
        env.rox.Transform(R, p)
    except (AssertionError, ValueError):
        env.require(True, 'refused')
    else:
        env.fail('wrong shape accepted')


# ---------------------------------------------------------------- C10
@scenario('C10', over=[dict(tol=t) for t in (None, 0.01, 1.0, 1e-9)], budget=60)
def isclose_meaning(env, tol):
    """isclose(tol): accepts whenever every entry is within tol, refuses when some entry differs by clearly more; every entry of both transforms is arbitrary."""
    np = env.np
    A = general(env, 'A')
    B = general(env, 'B', A)
    r = A.isclose(B) if tol is None else A.isclose(B, tol)
    t = 1e-6 if tol is None else tol
    t = env.const(t)
    a, b = entries(np, A), entries(np, B)
    # numpy's closeness also allows the relative part 1e-5 |other|; the margins keep rounding out
    env.require(env.Implies(env.And(*[abs(x - y) <= 0.999 * t - 1e-13 for x, y in zip(a, b)]), r), 'within tolerance is close')
    for i in range(12):
        env.require(env.Implies(abs(a[i] - b[i]) > 1.001 * t + 1.1e-5 * abs(b[i]) + 1e-12, env.Not(r)), 'beyond tolerance is not close')


def entries(np, T):
    return list(np.concatenate((np.reshape(T.R, (9,)), T.p)))


def general(env, n, A=None):
    np = env.np
    R, p = np.array([env.vec('%sR%d' % (n, i), lo=-1, hi=1) for i in range(3)]), env.vec(n + 'p', lo=-100, hi=100)
    if A is not None:
        # an offset from the first transform reaches equal and nearly equal entries as concrete points, too
        R, p = A.R + R, A.p + p
    return env.rox.Transform(R, p)


@scenario('C10', budget=60)
def equality(env):
    """Copies are equal, anything clearly different is not."""
    np = env.np
    A = general(env, 'A')
    B = env.rox.Transform(A.R.copy(), A.p.copy(), 'a', 'b')
    env.require(A == B, 'equal to a copy')
    env.require(env.Not(A != B), 'not unequal to a copy')
    C = general(env, 'C', A)
    a, c = entries(np, A), entries(np, C)
    e = A == C
    n = A != C
    for i in range(12):
        d = a[i] - c[i]
        env.require(env.Implies(env.Or(d >= 2e-6 + 1.2e-5 * abs(c[i]), d <= -2e-6 - 1.2e-5 * abs(c[i])), env.And(env.Not(e), n)), 'not equal when an entry differs')


# ---------------------------------------------------------------- C11
@scenario('C11', over=[{'n': n} for n in (1, 2)])
def axes_must_be_unit(env, n):
    """Accepted exactly when every axis has length one."""
    np = env.np
    H = np.array([env.vec('h%d' % i) for i in range(n)]).T
    P = np.zeros((3, n + 1))
    nn = [H[0, i] * H[0, i] + H[1, i] * H[1, i] + H[2, i] * H[2, i] for i in range(n)]
    try:
        r = env.rox.Robot(H, P, [0] * n)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    if ok:
        for x in nn:
            env.require(env.And(x <= 1.0001, x >= 0.9999), 'accepted axis has unit length')
        env.require(len(r.joint_type) == n, 'kept')
    else:
        env.require(env.Or(*[env.Or(x > 1, x < 1) for x in nn]), 'refused only a non-unit axis')


@scenario('C11')
def joint_types(env):
    """Accepted exactly when every joint type is known."""
    np = env.np
    t = env.choice('t', [-1, 0, 1, 2, 3, 4, 5, 7, 0.5, 1.25, 2.9, 3.5, -0.5, 1.0, 256, 1e9])
    try:
        env.rox.Robot(np.array([[0, 0], [0, 0], [1, 1]]), np.zeros((3, 3)), [0, t])
        ok = True
    except (AssertionError, ValueError):
        ok = False
    env.require(ok == (t in (0, 1, 2, 3)), 'joint type %s' % t)


@scenario('C11')
def sizes(env):
    """Every per-joint quantity of the wrong length, and every wrong matrix size, is refused; the right sizes are accepted and kept."""
    np = env.np
    n = 3
    H = np.array([env.unit3('h%d' % i) for i in range(n)]).T
    P = np.array([env.vec('p%d' % i) for i in range(n + 1)]).T
    lo, hi, ve, ac = [env.vec(s, n) for s in ('lo', 'hi', 've', 'ac')]
    M = [np.eye(6)] * (n + 1)
    names = ['a', 'b', 'c']
    good = dict(joint_lower_limit=lo, joint_upper_limit=hi, joint_vel_limit=ve, joint_acc_limit=ac, M=M, joint_names=names,
                R_tool=np.eye(3), p_tool=np.zeros(3), root_link_name='r', tip_link_name='t')
    what = env.choice('what', ['good', 'P', 'H', 'types', 'lo', 'hi', 've', 'ac', 'M', 'M5', 'names', 'P2', 'P+', 'types+', 'lo+', 'hi+', 've+', 'ac+', 'M+', 'names+', 'H2'])
    kw, h, p, jt = dict(good), H, P, [0, 1, 0]
    if what == 'P':
        p = P[:, 0:n]
    elif what == 'P2':
        p = P[0:2, :]
    elif what == 'H':
        h = H[:, 0:2]
    elif what == 'types':
        jt = [0, 1]
    elif what == 'lo':
        kw['joint_lower_limit'] = lo[0:2]
    elif what == 'hi':
        kw['joint_upper_limit'] = hi[0:2]
    elif what == 've':
        kw['joint_vel_limit'] = ve[0:2]
    elif what == 'ac':
        kw['joint_acc_limit'] = ac[0:2]
    elif what == 'M':
        kw['M'] = M[0:2]
    elif what == 'M5':
        kw['M'] = M[0:3] + [np.eye(5)]
    elif what == 'names':
        kw['joint_names'] = names[0:2]
    elif what == 'P+':
        p = np.hstack((P, P[:, 0:1]))
    elif what == 'H2':
        h = np.array([[0, 1, 0], [1, 0, 1]])
    elif what == 'types+':
        jt = [0, 1, 0, 0]
    elif what in ('lo+', 'hi+', 've+', 'ac+'):
        k = {'lo+': 'joint_lower_limit', 'hi+': 'joint_upper_limit', 've+': 'joint_vel_limit', 'ac+': 'joint_acc_limit'}[what]
        kw[k] = np.concatenate((good[k], good[k][0:1]))
    elif what == 'M+':
        kw['M'] = M + M[0:1]
    elif what == 'names+':
        kw['joint_names'] = names + ['d']
    try:
        r = env.rox.Robot(h, p, jt, **kw)
    except (AssertionError, ValueError):
        env.require(what != 'good', 'a consistent description is accepted')
        return
    env.require(what == 'good', 'inconsistent %s refused' % what)
    env.eq(r.H, H, 'H kept')
    env.eq(r.P, P, 'P kept')
    env.eq(r.joint_lower_limit, lo, 'lower limits kept')
    env.eq(r.joint_upper_limit, hi, 'upper limits kept')
    env.eq(r.joint_vel_limit, ve, 'velocity limits kept')
    env.eq(r.joint_acc_limit, ac, 'acceleration limits kept')
    env.require(list(r.joint_names) == names and r.root_link_name == 'r' and r.tip_link_name == 't', 'names kept')
    env.require(list(r.joint_type) == [0, 1, 0], 'types kept')


PARTS = ('H', 'P', 'types', 'joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit', 'M', 'joint_names')
PAIRS = [(a, b, x, y) for i, a in enumerate(PARTS) for b in PARTS[i + 1:] for x in (-1, 0, 1) for y in (-1, 0, 1)]


@scenario('C11', over=[dict(n=n) for n in (1, 2)], max_paths=1000)
def sizes_combined(env, n):
    """Any two of the quantities too short or too long at once, and all others right: accepted exactly when both fit; limits only count together."""
    np = env.np
    a, b, x, y = env.choice('pair', PAIRS)
    kind = env.choice('kind', ('array', 'list')) if n == 1 else 'array'
    k = {p: n for p in PARTS}
    k[a] += x
    k[b] += y
    v = {p: np.array([env.real('%s%d' % (p, i)) for i in range(k[p])]) for p in PARTS[3:7]}
    if kind == 'list':
        v = {p: list(u) for p, u in v.items()}
    H = np.array([[0, 0, 1]] * k['H']).T if k['H'] else np.zeros((3, 0))
    try:
        r = env.rox.Robot(H, np.zeros((3, k['P'] + 1)), [0] * k['types'], M=[np.eye(6)] * (k['M'] + 1), joint_names=['j'] * k['joint_names'], **v)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    env.require(ok == (x == 0 and y == 0), '%s %+d, %s %+d' % (a, x, b, y))
    if ok:
        for p, u in v.items():
            env.eq(getattr(r, p), u, p + ' kept')


@scenario('C11')
def half_limits(env):
    """One of the two position limits alone is no limit; each other quantity may be missing."""
    np = env.np
    names = ('joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit')
    given = [env.choice(p, (True, False)) for p in names]
    v = {p: env.vec(p, 2) for p, g in zip(names, given) if g}
    r = env.rox.Robot(np.array([[0, 0, 1], [0, 1, 0]]).T, np.zeros((3, 3)), [0, 1], **v)
    both = given[0] and given[1]
    for p in names:
        w = getattr(r, p)
        if p in v and (both or p in names[2:]):
            env.eq(w, v[p], p + ' kept')
        else:
            env.require(w is None, p + ' is absent')
    for p in ('M', 'joint_names', 'R_tool', 'p_tool', 'T_flange', 'T_base', 'root_link_name', 'tip_link_name'):
        env.require(getattr(r, p) is None, p + ' is absent')


# ---------------------------------------------------------------- robots
AX = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), 'X': (-1, 0, 0), 'Y': (0, -1, 0), 'Z': (0, 0, -1)}


def robot(env, types, axes=None, aux='', **kw):
    """A robot with symbolic link vectors, symbolic (or given signed coordinate) axes, and the optional transforms in aux."""
    np, rox = env.np, env.rox
    n = len(types)
    if axes is None:
        H = np.array([env.unit3('h%d' % i) for i in range(n)]).T
    else:
        H = np.array([list(AX[a]) for a in axes], dtype=float).T
    P = np.array([env.vec('p%d' % i) for i in range(n + 1)]).T
    m = {}
    if 't' in aux:
        m['R_tool'], m['p_tool'] = env.frame('Rt'), env.vec('pt')
    if 'f' in aux:
        m['T_flange'] = rox.Transform(env.frame('Rf'), env.vec('pf'))
    if 'b' in aux:
        m['T_base'] = rox.Transform(env.frame('Rb'), env.vec('pb'))
    m.update(kw)
    return rox.Robot(H, P, list(types), **m), H, P, m


def poe(env, H, P, types, th, m):
    """Reference: product of the joint motions in order, then flange, tool; base in front.  Returns R, p."""
    np = env.np
    R, p = np.eye(3), P[:, 0]
    for i, t in enumerate(types):
        h = H[:, i]
        if t in (0, 2):
            R = np.matmul(R, rodrigues(np, h, np.cos(th[i]), np.sin(th[i])))
        else:
            p = p + np.matmul(R, h) * th[i]
        p = p + np.matmul(R, P[:, i + 1])
    if m.get('T_flange') is not None:
        p = p + np.matmul(R, m['T_flange'].p)
        R = np.matmul(R, m['T_flange'].R)
    if m.get('R_tool') is not None:
        p = p + np.matmul(R, m['p_tool'])
        R = np.matmul(R, m['R_tool'])
    if m.get('T_base') is not None:
        p = m['T_base'].p + np.matmul(m['T_base'].R, p)
        R = np.matmul(m['T_base'].R, R)
    return R, p


def joints(env, types, name='q'):
    np = env.np
    return np.array([env.angle('%s%d' % (name, i)) if t in (0, 2) else env.real('%s%d' % (name, i)) for i, t in enumerate(types)])


GENERIC = [dict(types=list(t), axes=None, aux=a) for t in ((0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1)) for a in ('',)] + \
    [dict(types=[0, 1], axes=None, aux=a) for a in ('t', 'f', 'b', 'tf', 'tb', 'fb', 'tfb')]
AXIS6 = [dict(types=[0] * 6, axes='zyyxyx', aux=''), dict(types=[0] * 6, axes='zyyzyz', aux='tb'), dict(types=[0] * 6, axes='zYYYZY', aux='f'),
         dict(types=[0, 0, 1, 0, 1, 0], axes='zXzYxY', aux='tfb'), dict(types=[2, 3, 0, 1], axes='zxyz', aux='t')]
AXIS7 = [dict(types=[0] * 7, axes='zyzYzyz', aux='tfb'), dict(types=[1, 0, 0, 0, 0, 0, 0], axes='xzyyzYx', aux='b')]
DEEP = [dict(types=list(t), axes=None, aux='') for t in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1))] + \
    [dict(types=[0, 0], axes=None, aux='tfb'), dict(types=[0] * 9, axes='zyxzyxzyx', aux='tfb')]


def _long():
    """Chains of 3 to 8 joints over coordinate axes: in each length a slide at every position, and all eight sets of auxiliary transforms."""
    out = []
    aux = ['', 't', 'f', 'b', 'tf', 'tb', 'fb', 'tfb']
    names = 'zyXxYZyz'
    k = 0
    for n in range(3, 9):
        for i in range(n):
            types = [0] * n
            types[i] = 1
            if i % 3 == 2:
                types[i - 1] = 1
            out.append(dict(types=types, axes=''.join(names[(k + 3 * j + j * j) % 8] for j in range(n)), aux=aux[k % 8]))
            k += 1
    return out


LONG = _long()
MOBILE = [dict(types=t, axes=a, aux=x) for t, a, x in (([2], 'z', 't'), ([3], 'x', 'b'), ([3, 1, 2, 0, 0], 'xyzyz', 'tf'), ([1, 1, 2, 0], 'xyzy', 'b'))]


# ---------------------------------------------------------------- C12
@scenario('C12', over=GENERIC + AXIS6 + AXIS7 + LONG + MOBILE, thorough_over=DEEP, budget=60)
def forward(env, types, axes, aux):
    """Product of exponentials, with every joint type mix and any of tool, flange and base."""
    np, rox = env.np, env.rox
    r, H, P, m = robot(env, types, axes, aux)
    th = joints(env, types)
    T = rox.fwdkin(r, th)
    R, p = poe(env, H, P, types, th, m)
    env.eq(T.R, R, 'orientation')
    env.eq(T.p, p, 'position')


CHANGES = ['tool', 'notool', 'flange', 'base', 'nobase', 'P', 'Pinplace', 'H', 'toolinplace', 'baseinplace', 'types']


def change(env, r, H, P, m, types, what):
    """One change of the robot after its construction; returns what it is now."""
    np, rox = env.np, env.rox
    types, m = list(types), dict(m)
    if what == 'tool':
        r.R_tool, r.p_tool = m['R_tool'], m['p_tool'] = env.frame('Rn'), env.vec('pn')
    elif what == 'notool':
        r.R_tool = r.p_tool = m['R_tool'] = m['p_tool'] = None
    elif what == 'flange':
        r.T_flange = m['T_flange'] = rox.Transform(env.frame('Rn'), env.vec('pn'))
    elif what == 'base':
        r.T_base = m['T_base'] = rox.Transform(env.frame('Rn'), env.vec('pn'))
    elif what == 'nobase':
        r.T_base = m['T_base'] = None
    elif what == 'P':
        r.P = P = np.array([env.vec('n%d' % i) for i in range(len(types) + 1)]).T
    elif what == 'Pinplace':
        r.P[:, 1] = env.vec('n')
        P = r.P
    elif what == 'H':
        r.H = H = np.array([[0, 1, 0], [0, 0, 1]], dtype=float).T
    elif what == 'toolinplace':
        r.p_tool[0] = env.real('n0')
        m['p_tool'] = r.p_tool
    elif what == 'baseinplace':
        r.T_base.p[1] = env.real('n0')
        m['T_base'] = r.T_base
    elif what == 'types':
        r.joint_type = types = [1, 0]
    return H, P, m, types


@scenario('C12', over=[dict(what=w) for w in CHANGES])
def forward_after_change(env, what):
    """Same joints before and after one change of the robot: the pose is that of the robot as it is now."""
    np, rox = env.np, env.rox
    types = [0, 0]
    r, H, P, m = robot(env, types, 'zy', 'tfb')
    th = joints(env, types)
    rox.fwdkin(r, th)
    rox.robotjacobian(r, th)
    H, P, m, types = change(env, r, H, P, m, types, what)
    T = rox.fwdkin(r, th)
    R, p = poe(env, H, P, types, th, m)
    env.eq(T.R, R, 'orientation')
    env.eq(T.p, p, 'position')


@scenario('C13', over=[dict(what=w) for w in CHANGES])
def jacobian_after_change(env, what):
    """The Jacobian is that of the robot as it is now."""
    np, rox = env.np, env.rox
    types = [0, 0]
    r, H, P, m = robot(env, types, 'zy', 'tfb')
    th = joints(env, types)
    rox.fwdkin(r, th)
    rox.robotjacobian(r, th)
    H, P, m, types = change(env, r, H, P, m, types, what)
    env.eq(rox.robotjacobian(r, th), fd_jacobian(env, H, P, types, th, m), 'Jacobian')


@scenario('C13', over=[dict(kind=k) for k in ('list', 'tuple', 'column')])
def jacobian_containers(env, kind):
    """The joint vector may be any documented container."""
    np, rox = env.np, env.rox
    types = [0, 1]
    r, H, P, m = robot(env, types, None, 'b')
    th = joints(env, types)
    v = {'list': [th[0], th[1]], 'tuple': (th[0], th[1]), 'column': np.reshape(th, (2, 1))}[kind]
    env.eq(rox.robotjacobian(r, v), fd_jacobian(env, H, P, types, th, m), 'Jacobian')


@scenario('C12', over=[dict(kind=k) for k in ('list', 'tuple', 'column')])
def forward_containers(env, kind):
    """The joint vector may be any container the documentation allows."""
    np, rox = env.np, env.rox
    types = [0, 1]
    r, H, P, m = robot(env, types, None, '')
    th = joints(env, types)
    v = {'list': [th[0], th[1]], 'tuple': (th[0], th[1]), 'column': np.reshape(th, (2, 1))}[kind]
    T = rox.fwdkin(r, v)
    R, p = poe(env, H, P, types, th, m)
    env.eq(T.R, R, 'orientation')
    env.eq(T.p, p, 'position')


@scenario('C12')
def forward_after_changes(env):
    """The pose always reflects the robot's current tool, base and flange, also after they change (history)."""
    np, rox = env.np, env.rox
    types = [0, 0]
    r, H, P, m = robot(env, types, 'zy', '')
    th, th2 = joints(env, types), joints(env, types, 's')
    rox.fwdkin(r, th)
    rox.robotjacobian(r, th)
    r.R_tool, r.p_tool = env.frame('Rt'), env.vec('pt')
    r.T_base = rox.Transform(env.frame('Rb'), env.vec('pb'))
    m = dict(R_tool=r.R_tool, p_tool=r.p_tool, T_base=r.T_base)
    T = rox.fwdkin(r, th2)
    R, p = poe(env, H, P, types, th2, m)
    env.eq(T.R, R, 'orientation')
    env.eq(T.p, p, 'position')
    T1 = rox.fwdkin(r, th)
    T2 = rox.fwdkin(r, th2)
    env.eq(T2.R, T.R, 'repeatable')
    env.eq(T2.p, T.p, 'repeatable')


# ---------------------------------------------------------------- C13
def fd_jacobian(env, H, P, types, th, m):
    """Reference: column j is the screw of joint j at the tool point, from the chain's own geometry (written out independently)."""
    np = env.np
    n = len(types)
    R, p = np.eye(3), P[:, 0]
    zs, os_ = [], []
    for i, t in enumerate(types):
        h = H[:, i]
        zs.append(np.matmul(R, h))
        os_.append(p)
        if t in (0, 2):
            R = np.matmul(R, rodrigues(np, h, np.cos(th[i]), np.sin(th[i])))
        else:
            p = p + np.matmul(R, h) * th[i]
        p = p + np.matmul(R, P[:, i + 1])
    if m.get('T_flange') is not None:
        p = p + np.matmul(R, m['T_flange'].p)
        R = np.matmul(R, m['T_flange'].R)
    if m.get('R_tool') is not None:
        p = p + np.matmul(R, m['p_tool'])
    cols = []
    for i, t in enumerate(types):
        w, v = (zs[i], cross(np, zs[i], p - os_[i])) if t == 0 else (np.zeros(3), zs[i])
        if m.get('T_base') is not None:
            w, v = np.matmul(m['T_base'].R, w), np.matmul(m['T_base'].R, v)
        cols.append(np.concatenate((w, v)))
    return np.array(cols).T


JCONF = [c for c in GENERIC + AXIS6 + AXIS7 + LONG if set(c['types']) <= {0, 1}]


@scenario('C13', over=JCONF, thorough_over=[c for c in DEEP if set(c['types']) <= {0, 1}], budget=60)
def jacobian(env, types, axes, aux):
    """Every column against the geometric definition."""
    np, rox = env.np, env.rox
    r, H, P, m = robot(env, types, axes, aux)
    th = joints(env, types)
    J = rox.robotjacobian(r, th)
    env.eq(J, fd_jacobian(env, H, P, types, th, m), 'Jacobian')


@scenario('C13', over=[c for c in JCONF if c['axes'] is None and len(c['types']) <= 2] + [dict(c, aux='') if len(c['axes']) == 7 else c for c in JCONF if c['axes']],
          thorough_over=[c for c in JCONF if c['axes']], budget=90)
def jacobian_is_derivative(env, types, axes, aux):
    """The Jacobian is the derivative of the library's own forward kinematics: each joint moved alone by a further amount d."""
    np, rox = env.np, env.rox
    r, H, P, m = robot(env, types, axes, aux)
    th = joints(env, types)
    J = rox.robotjacobian(r, th)
    T0 = rox.fwdkin(r, th)
    for j, t in enumerate(types):
        if t == 0:
            # d = pi/2 and pi around a fixed screw axis determine the axis and the point: compare the exact finite motion
            tm = th.copy()
            tm[j] = tm[j] + env.pi / 2
            tp = th.copy()
            tp[j] = tp[j] - env.pi / 2
            A, B = rox.fwdkin(r, tm), rox.fwdkin(r, tp)
            # sin component of the motion: (x(+90)-x(-90))/2 = derivative at 0
            dR = (A.R - B.R) / 2
            dp = (A.p - B.p) / 2
        else:
            tm = th.copy()
            tm[j] = tm[j] + 1
            A = rox.fwdkin(r, tm)
            dR = A.R - T0.R
            dp = A.p - T0.p
        w, v = J[0:3, j], J[3:6, j]
        env.eq(dR, np.matmul(np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]), T0.R), 'angular part of joint %d' % j)
        env.eq(dp, v, 'linear part of joint %d' % j)


@scenario('C13', over=[dict(rest=r, axes=a, aux=x) for r, a, x in (([], 'xyz', ''), ([], 'xyz', 'tfb'), ([0], 'xyzy', 't'), ([1], 'xyzx', 'fb'), ([0], 'yXzz', 'b'), ([0, 1], 'yzxzy', 'tf'), ([1, 0], 'zxyxz', 'tb'))],
          thorough_over=[dict(rest=[0] * 6, axes='xyzzyyxyx', aux='tfb'), dict(rest=[1, 0, 0, 1], axes='XYzxyzz', aux='tf')], budget=60)
def jacobian_mobile(env, rest, axes, aux):
    """A robot on a vehicle (two slides and a turn): the first two columns are driving ahead, in the direction the vehicle points at, and turning."""
    np, rox = env.np, env.rox
    types = [3, 3, 2] + rest
    r, H, P, m = robot(env, types, axes, aux)
    th = joints(env, types)
    J = rox.robotjacobian(r, th)
    full = fd_jacobian(env, H, P, [1, 1, 0] + rest, th, m)
    env.require(np.shape(J) == (6, 2 + len(rest)), 'one column for driving, one for turning and one for every further joint')
    env.eq(J[:, 0], np.cos(th[2]) * full[:, 0] + np.sin(th[2]) * full[:, 1], 'driving ahead')
    env.eq(J[:, 1:], full[:, 2:], 'turning and the further joints')


@scenario('C13')
def jacobian_pure(env):
    """Computing the Jacobian leaves the robot and the joint vector alone, and is repeatable."""
    np, rox = env.np, env.rox
    types = [0, 1]
    r, H, P, m = robot(env, types, None, 'tfb')
    H0, P0 = H.copy(), P.copy()
    Rt, pt, pf, pb = [x.copy() for x in (m['R_tool'], m['p_tool'], m['T_flange'].p, m['T_base'].p)]
    th = joints(env, types)
    t0 = th.copy()
    J = rox.robotjacobian(r, th)
    T = rox.fwdkin(r, th)
    J2 = rox.robotjacobian(r, th)
    T2 = rox.fwdkin(r, th)
    for a, b, w in ((J2, J, 'Jacobian'), (T2.R, T.R, 'R'), (T2.p, T.p, 'p'), (r.H, H0, 'H'), (r.P, P0, 'P'), (th, t0, 'joints'), (r.p_tool, pt, 'p_tool'),
                    (r.R_tool, Rt, 'R_tool'), (r.T_flange.p, pf, 'flange'), (r.T_base.p, pb, 'base')):
        env.eq(a, b, w + ' unchanged')


# ---------------------------------------------------------------- C14
@scenario('C14', over=[dict(what=w, types=t, form='array') for w in ('fwdkin', 'robotjacobian') for t in ([1], [1, 1], [1, 0], [0, 1], [1, 1, 1])] +
          [dict(what=w, types=[1, 1], form=f) for w in ('fwdkin', 'robotjacobian') for f in ('list', 'tuple', 'column', 'limitlists')],
          thorough_over=[dict(what=w, types=t, form='array') for w in ('fwdkin', 'robotjacobian') for t in ([0, 1, 0], [1, 1, 1, 1], [0, 0, 1, 1, 0, 1])], budget=60)
def limits_enforced(env, what, types, form):
    """Evaluation succeeds exactly when every joint is inside its closed interval."""
    np, rox = env.np, env.rox
    n = len(types)
    lo, hi = env.vec('lo', n, lo=-7, hi=7), env.vec('hi', n, lo=-7, hi=7)
    q = np.array([env.real('q%d' % i) if t else env.angle('q%d' % i, lo=-7, hi=7) for i, t in enumerate(types)])
    l = (list(lo), list(hi)) if form == 'limitlists' else (lo, hi)
    r, H, P, m = robot(env, types, 'zxyzyx'[:n], '', joint_lower_limit=l[0], joint_upper_limit=l[1])
    inside = env.And(*[env.And(q[i] >= lo[i], q[i] <= hi[i]) for i in range(n)])
    v = {'list': list, 'tuple': tuple, 'column': lambda x: np.reshape(x, (n, 1))}.get(form, lambda x: x)(q)
    try:
        getattr(rox, what)(r, v)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    if ok:
        env.require(inside, 'evaluated only inside the limits')
    else:
        env.require(env.Not(inside), 'refused only outside the limits')


@scenario('C14', over=[dict(what=w, change=c) for w in ('fwdkin', 'robotjacobian') for c in ('lower', 'upper', 'inplace', 'none')])
def limits_changed(env, what, change):
    """The limits that count are those the robot has at the time of the call."""
    np, rox = env.np, env.rox
    lo, hi, q = env.vec('lo', 2), env.vec('hi', 2), env.vec('q', 2)
    r, H, P, m = robot(env, [1, 1], 'zx', '', joint_lower_limit=lo, joint_upper_limit=hi)
    try:
        getattr(rox, what)(r, q)
    except (AssertionError, ValueError):
        pass
    x = env.vec('x', 2)
    if change == 'lower':
        r.joint_lower_limit = lo = x
    elif change == 'upper':
        r.joint_upper_limit = hi = x
    elif change == 'inplace':
        r.joint_upper_limit[1] = x[1]
        hi = r.joint_upper_limit
    else:
        r.joint_lower_limit = None
    inside = env.And(*[env.And(q[i] >= lo[i], q[i] <= hi[i]) for i in range(2)]) if change != 'none' else env.const(0) == 0
    try:
        getattr(rox, what)(r, q)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    if ok:
        env.require(inside, 'evaluated only inside the limits')
    else:
        env.require(env.Not(inside), 'refused only outside the limits')


@scenario('C14', over=[dict(what=w, miss=x) for w in ('fwdkin', 'robotjacobian') for x in ('both', 'lower', 'upper')])
def no_limits(env, what, miss):
    """Without a complete pair of limits every joint value is accepted."""
    np, rox = env.np, env.rox
    lo, hi, q = env.vec('lo', 2), env.vec('hi', 2), env.vec('q', 2)
    kw = {}
    if miss == 'lower':
        kw['joint_upper_limit'] = hi
    if miss == 'upper':
        kw['joint_lower_limit'] = lo
    r, H, P, m = robot(env, [1, 1], 'zx', '', **kw)
    getattr(rox, what)(r, q)
    env.require(True, 'accepted')


@scenario('C14', over=[dict(what=w) for w in ('fwdkin', 'robotjacobian')])
def limits_revolute(env, what):
    """Limits compare the value as given, not modulo full turns."""
    np, rox = env.np, env.rox
    lo, hi = env.real('lo', lo=-7, hi=7), env.real('hi', lo=-7, hi=7)
    th = env.angle('th', lo=-7, hi=7)
    z = np.zeros(1)
    r, H, P, m = robot(env, [0], 'z', '', joint_lower_limit=np.array([lo]), joint_upper_limit=np.array([hi]))
    inside = env.And(th >= lo, th <= hi)
    try:
        getattr(rox, what)(r, np.array([th]))
        ok = True
    except (AssertionError, ValueError):
        ok = False
    if ok:
        env.require(inside, 'evaluated only inside the limits')
    else:
        env.require(env.Not(inside), 'refused only outside the limits')


# ---------------------------------------------------------------- C15
@scenario('C15', over=[dict(aux=a) for a in ('', 't', 'f', 'b', 'tf', 'tb', 'fb', 'tfb')])
def aux_inverse(env, aux):
    """Adding and removing the tool/flange/base transforms are exact inverses, in the order base * chain * flange * tool."""
    np, rox = env.np, env.rox
    r, H, P, m = robot(env, [0], 'z', aux)
    R, p = env.frame('R'), env.vec('p')
    T = rox.Transform(R, p)
    A = rox.unapply_robot_aux_transforms(r, rox.apply_robot_aux_transforms(r, T))
    B = rox.apply_robot_aux_transforms(r, rox.unapply_robot_aux_transforms(r, T))
    for X, w in ((A, 'remove(add)'), (B, 'add(remove)')):
        env.eq(X.R, R, w + ' R')
        env.eq(X.p, p, w + ' p')
    X = rox.apply_robot_aux_transforms(r, T)
    Rr, pr = poe(env, H, np.array([p, np.zeros(3)]).T, [], [], {})
    Rr = R
    if 'f' in aux:
        pr = pr + np.matmul(Rr, m['T_flange'].p)
        Rr = np.matmul(Rr, m['T_flange'].R)
    if 't' in aux:
        pr = pr + np.matmul(Rr, m['p_tool'])
        Rr = np.matmul(Rr, m['R_tool'])
    if 'b' in aux:
        pr = m['T_base'].p + np.matmul(m['T_base'].R, pr)
        Rr = np.matmul(m['T_base'].R, Rr)
    env.eq(X.R, Rr, 'order R')
    env.eq(X.p, pr, 'order p')
    env.eq(T.R, R, 'argument unchanged')
    env.eq(T.p, p, 'argument unchanged')


@scenario(['C15', 'C13'], over=[dict(which=w, when=n) for w in ('R', 'p') for n in ('built', 'set', 'removed')])
def tool_needs_both(env, which, when):
    """A tool given by only half of its description, from the start or later, is no tool, consistently for the pose, the Jacobian and the removal."""
    np, rox = env.np, env.rox
    kw = {} if when == 'removed' else {'R_tool': env.frame('Rt')} if which == 'R' else {'p_tool': env.vec('pt')}
    if when == 'built':
        r, H, P, m = robot(env, [0, 1], 'zx', '', **kw)
    elif when == 'set':
        r, H, P, m = robot(env, [0, 1], 'zx', '')
        for k, v in kw.items():
            setattr(r, k, v)
    else:
        r, H, P, m = robot(env, [0, 1], 'zx', 't')
        setattr(r, 'p_tool' if which == 'R' else 'R_tool', None)
    A, Bo = env.frame('A'), env.vec('b')
    X = rox.unapply_robot_aux_transforms(r, rox.Transform(A, Bo))
    env.eq(X.R, A, 'nothing to remove')
    env.eq(X.p, Bo, 'nothing to remove')
    X = rox.apply_robot_aux_transforms(r, rox.Transform(A, Bo))
    env.eq(X.R, A, 'nothing to add')
    env.eq(X.p, Bo, 'nothing to add')
    th = joints(env, [0, 1])
    T = rox.fwdkin(r, th)
    R, p = poe(env, H, P, [0, 1], th, {})
    env.eq(T.R, R, 'orientation')
    env.eq(T.p, p, 'position')
    env.eq(rox.robotjacobian(r, th), fd_jacobian(env, H, P, [0, 1], th, {}), 'Jacobian')
