"""C34-C38: the Tesseract export and wrapper.

Symbolically the Tesseract classes are stand-ins (checks/tess_stub.py); the concrete runs use the installed Tesseract library itself."""
import yaml as realyaml
from symx.reg import scenario
from checks import tess_stub
from checks.c09_model import rodrigues, cross, AX, poe, joints


def tess(env):
    env.y = tess_stub.install(env)
    if env.symbolic:
        env.ctx.round_exact = True      # the parameters are documented to six digits: rounding at the sixth digit is not modelled
    return env.mod('tesseract')


def mkH(env, axes, n):
    np = env.np
    if axes is None:
        return np.array([list(env.unit3('h%d' % i)) for i in range(n)]).T
    return np.array([list(AX[a]) for a in axes], dtype=float).T


def robot(env, types, axes, aux, names=None, tag='', P=None):
    np, rox = env.np, env.rox
    n = len(types)
    H = mkH(env, axes, n)
    if P is None:
        P = np.array([list(env.vec('%sp%d_' % (tag, i), lo=-2, hi=2)) for i in range(n + 1)]).T
    m = {}
    if 't' in aux:
        m['R_tool'], m['p_tool'] = env.frame(tag + 'Rt'), env.vec(tag + 'pt', lo=-1, hi=1)
    if 'f' in aux:
        m['T_flange'] = rox.Transform(env.frame(tag + 'Rf'), env.vec(tag + 'pf', lo=-1, hi=1))
    if 'b' in aux:
        m['T_base'] = rox.Transform(env.frame(tag + 'Rb'), env.vec(tag + 'pb', lo=-1, hi=1))
    lim = {}
    for k, lo, hi in (('joint_lower_limit', -6, -3), ('joint_upper_limit', 3, 6), ('joint_vel_limit', 0.1, 9), ('joint_acc_limit', 0.1, 9)):
        lim[k] = np.array([env.real('%s%s%d' % (tag, k[6:9], i), lo=lo, hi=hi) for i in range(n)])
    kw = dict(lim)
    if names is not None:
        kw['joint_names'] = list(names)
    r = rox.Robot(H, P, list(types), **m, **kw)
    return r, H, P, m, lim


def mats(T):
    M = T.matrix()
    return M[0:3, 0:3], M[0:3, 3]


def items(v):
    return [v[i] for i in range(len(v))]


def mul(np, A, B):
    return np.matmul(A[0], B[0]), A[1] + np.matmul(A[0], B[1])


def kinds(env):
    if env.symbolic:
        return tess_stub.JointType_REVOLUTE, tess_stub.JointType_PRISMATIC, tess_stub.JointType_FIXED
    import tesseract_robotics.tesseract_scene_graph as s
    return s.JointType_REVOLUTE, s.JointType_PRISMATIC, s.JointType_FIXED


CONF = [dict(types=list(t), axes=None, aux=a) for t, a in (((0,), ''), ((1,), 'tf'), ((0, 1), 't'), ((1, 0), 'f'), ((0, 0), 'tfb'), ((1, 1), 'b'))] + \
    [dict(types=[0, 0, 0, 1], axes='zxyz', aux='f'), dict(types=[0] * 6, axes='zyyxyx', aux='tfb'), dict(types=[0] * 7, axes='zyzYzyz', aux='t')]
DEEPC = [dict(types=list(t), axes=None, aux='tfb') for t in ((0, 0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 0))] + [dict(types=[0] * 6, axes='xyzXYZ', aux=a) for a in ('', 't', 'f', 'b')] + \
    [dict(types=[0, 1, 0, 1, 0, 1, 0], axes='zyxzyxz', aux='tfb')]


# ---------------------------------------------------------------- C34
@scenario('C34', over=CONF, thorough_over=DEEPC, budget=60)
def scene_graph(env, types, axes, aux):
    """Links and joints of the graph compose to the forward kinematics; limits, types, names and the prefix."""
    np = env.np
    ts = tess(env)
    n = len(types)
    named = env.choice('named', [False, True])
    names = ['axis%d' % (i + 4) for i in range(n)] if named else None
    r, H, P, m, lim = robot(env, types, axes, aux, names)
    sg, ln, jn, cn = ts.robot_to_scene_graph(r, return_names=True)
    REV, PRI, FIX = kinds(env)
    links = [l.getName() for l in items(sg.getLinks())]
    js = {j.getName(): j for j in items(sg.getJoints())}
    env.require(len(set(links)) == len(links) and set(links) == set(ln), 'link names')
    env.require(len(js) == len(links) - 1, 'joint names')
    want = names if named else ['joint_%d' % (i + 1) for i in range(n)]
    env.require(list(jn) == want, 'names of the joints')
    root = sg.getRoot()
    env.require(root == ln[0] == cn[0], 'base link')
    out = {}
    for j in js.values():
        env.require(j.parent_link_name not in out, 'a single chain')
        out[j.parent_link_name] = j
    q = joints(env, types)
    T = (np.eye(3), np.zeros(3))
    moving, at, l = [], [root], root
    while l in out:
        j = out[l]
        T = mul(np, T, mats(j.parent_to_joint_origin_transform))
        if j.type == FIX:
            pass
        else:
            i = len(moving)
            env.require(i < n, 'number of joints')
            h = j.axis.flatten()
            moving.append(j)
            env.require(j.getName() == want[i], 'order of the joints')
            env.require(j.type == (REV if types[i] == 0 else PRI), 'type of joint %d' % i)
            if j.type == REV:
                T = mul(np, T, (rodrigues(np, h, np.cos(q[i]), np.sin(q[i])), np.zeros(3)))
            else:
                T = mul(np, T, (np.eye(3), h * q[i]))
            for a, k in (('lower', 'joint_lower_limit'), ('upper', 'joint_upper_limit'), ('velocity', 'joint_vel_limit'), ('acceleration', 'joint_acc_limit')):
                env.eq(getattr(j.limits, a), lim[k][i], '%s limit of joint %d' % (a, i))
        l = j.child_link_name
        at.append(l)
        if len(moving) == n and j.type != FIX:
            env.require(list(cn) == at, 'links of the chain')
    env.require(len(moving) == n, 'every joint is there')
    env.require(at == list(ln), 'links in order')
    m = dict(m)
    m.pop('T_base', None)
    R, p = poe(env, H, P, types, q, m)
    env.eq(T[0], R, 'orientation of the last link')
    env.eq(T[1], p, 'position of the last link')


def frames_ok(env, g, pre, types, H, P, m, q):
    """All poses of the group against the reference."""
    np = env.np
    fr = g.calcFwdKin(q)
    T = ident = (np.eye(3), np.zeros(3))
    if m.get('T_base') is not None:
        T = (m['T_base'].R, m['T_base'].p)
    where = [('base_link', T)]
    for i, t in enumerate(types):
        T = (T[0], T[1] + np.matmul(T[0], P[:, i]))
        if t == 0:
            T = (np.matmul(T[0], rodrigues(np, H[:, i], np.cos(q[i]), np.sin(q[i]))), T[1])
        else:
            T = (T[0], T[1] + np.matmul(T[0], H[:, i]) * q[i])
        where.append(('link_%d' % (i + 1), T))
    T = (T[0], T[1] + np.matmul(T[0], P[:, len(types)]))
    where.append(('chain_tip', T))
    if m.get('T_flange') is not None:
        T = mul(np, T, (m['T_flange'].R, m['T_flange'].p))
        where.append(('flange', T))
    if m.get('R_tool') is not None:
        T = mul(np, T, (m['R_tool'], m['p_tool']))
        where.append(('tool_tcp', T))
    for k, (R, p) in where:
        A = mats(fr[pre + k])
        env.eq(A[0], R, 'orientation of ' + k)
        env.eq(A[1], p, 'position of ' + k)
    A = mats(fr['world'])
    env.eq(A[0], ident[0], 'orientation of the world')
    env.eq(A[1], ident[1], 'position of the world')


def group_ok(env, g, names, lim, tip):
    env.require(list(g.getJointNames()) == names, 'names of the joints')
    env.require(list(g.getAllPossibleTipLinkNames()) == [tip], 'tip link')
    l = g.getLimits()
    for i in range(len(names)):
        env.eq(l.joint_limits[i, 0], lim['joint_lower_limit'][i], 'lower limit')
        env.eq(l.joint_limits[i, 1], lim['joint_upper_limit'][i], 'upper limit')
        env.eq(l.velocity_limits.flatten()[i], lim['joint_vel_limit'][i], 'velocity limit')
        env.eq(l.acceleration_limits.flatten()[i], lim['joint_acc_limit'][i], 'acceleration limit')


def tipname(aux):
    return 'tool_tcp' if 't' in aux else 'flange' if 'f' in aux else 'chain_tip'


@scenario('C34', over=CONF, thorough_over=DEEPC, budget=60)
def environment(env, types, axes, aux):
    """The environment built for a robot: link and joint names, kinematics group, limits and the pose of every frame."""
    ts = tess(env)
    name = env.choice('name', ['robot', 'left'])
    r, H, P, m, lim = robot(env, types, axes, aux)
    e, ln, jn = ts.robot_to_tesseract_env(r, name, return_names=True)
    n = len(types)
    env.require(list(jn) == ['%s_joint_%d' % (name, i + 1) for i in range(n)], 'joint names')
    env.require(ln[0] == 'world' and ln[-1] == '%s_%s' % (name, tipname(aux)) and len(set(ln)) == len(ln), 'link names')
    g = e.getKinematicGroup(name)
    env.require(set(ln) == set(g.getLinkNames()), 'link names are those of the environment')
    group_ok(env, g, list(jn), lim, ln[-1])
    frames_ok(env, g, name + '_', types, H, P, m, joints(env, types))


@scenario('C34', over=[dict(a='', b=''), dict(a='tb', b='fb')], budget=60)
def two_robots(env, a, b):
    """A second robot added to the environment of a first one."""
    ts = tess(env)
    r1, H1, P1, m1, lim1 = robot(env, [0, 1], 'zx', a, tag='a')
    r2, H2, P2, m2, lim2 = robot(env, [0], 'y', b, tag='b')
    c1 = ts.robot_to_tesseract_env_commands(r1, 'one')
    c2, ln, jn = ts.robot_to_tesseract_env_commands(r2, 'two', include_world=False, return_names=True)
    env.require('world' not in ln and ln[0] == 'two_base_link', 'links of a robot added to an environment')
    if env.symbolic:
        e = tess_stub.Environment()
    else:
        from tesseract_robotics.tesseract_environment import Environment
        e = Environment()
    env.require(e.init(c1), 'first robot')
    env.require(e.applyCommands(c2), 'second robot')
    q1, q2 = joints(env, [0, 1], 'qa'), joints(env, [0], 'qb')
    g1, g2 = e.getKinematicGroup('one'), e.getKinematicGroup('two')
    group_ok(env, g1, ['one_joint_1', 'one_joint_2'], lim1, 'one_' + tipname(a))
    group_ok(env, g2, ['two_joint_1'], lim2, 'two_' + tipname(b))
    frames_ok(env, g1, 'one_', [0, 1], H1, P1, m1, q1)
    frames_ok(env, g2, 'two_', [0], H2, P2, m2, q2)


@scenario('C34')
def pieces(env):
    """Single links and joints, and the conversion of poses both ways."""
    np, rox = env.np, env.rox
    ts = tess(env)
    REV, PRI, FIX = kinds(env)
    R, p, h = env.frame('R'), env.vec('p'), env.unit3('h')
    shape = env.choice('shape', ['flat', 'column'])
    T = rox.Transform(R, p if shape == 'flat' else np.reshape(p, (3, 1)))
    A = mats(ts.transform_to_isometry3d(T))
    env.eq(A[0], R, 'rotation of a converted pose')
    env.eq(A[1], p, 'position of a converted pose')
    B = ts.isometry3d_to_transform(ts.transform_to_isometry3d(T))
    env.require(B.p.shape == (3,), 'shape of a position')
    env.eq(B.R, R, 'rotation there and back')
    env.eq(B.p, p, 'position there and back')
    lk, j = ts.get_fixed_link_and_joint(T, 'l', 'j', 'par')
    env.require(lk.getName() == 'l' and j.getName() == 'j' and j.child_link_name == 'l' and j.parent_link_name == 'par' and j.type == FIX, 'fixed joint')
    A = mats(j.parent_to_joint_origin_transform)
    env.eq(A[0], R, 'rotation of a fixed joint')
    env.eq(A[1], p, 'position of a fixed joint')
    x = [env.real('x%d' % i) for i in range(5)]
    t = env.choice('type', [0, 1])
    lk, j = ts.get_link_and_joint(h, p, t, x[0], x[1], x[2], x[3], x[4], 'l', 'j', 'par')
    env.require(lk.getName() == 'l' and j.getName() == 'j' and j.child_link_name == 'l' and j.parent_link_name == 'par', 'names of a joint')
    env.require(j.type == (REV, PRI)[t], 'type of a joint')
    A = mats(j.parent_to_joint_origin_transform)
    env.eq(A[0], np.eye(3), 'rotation of a joint')
    env.eq(A[1], p, 'position of a joint')
    env.eq(j.axis.flatten(), h, 'axis of a joint')
    for a, v in zip(('lower', 'upper', 'velocity', 'acceleration', 'effort'), x):
        env.eq(getattr(j.limits, a), v, a + ' limit')
    r, H, P, m, lim = robot(env, [0], 'z', env.choice('aux', ['', 'b']))
    j = ts.get_robot_world_to_base_joint(r, 'bob')
    env.require(j.parent_link_name == 'world' and j.child_link_name == 'bob_base_link' and j.type == FIX, 'joint to the world')
    A = mats(j.parent_to_joint_origin_transform)
    b = m.get('T_base')
    env.eq(A[0], np.eye(3) if b is None else b.R, 'rotation of the base')
    env.eq(A[1], np.zeros(3) if b is None else b.p, 'position of the base')


@scenario('C34')
def other_types_refused(env):
    """Joint types without a counterpart are refused."""
    np = env.np
    ts = tess(env)
    t = env.choice('type', [2, 3, 7, -1])
    x = env.real('x')
    try:
        ts.get_link_and_joint(np.array([0., 0., 1.]), np.array([x, 0, 0]), t, -1., 1., 1., 1., 1., 'l', 'j', 'p')
    except Exception:
        env.require(True, 'refused')
    else:
        env.fail('a joint of an unsupported type is exported')


# ---------------------------------------------------------------- C35
def opw_fk(env, par, q):
    """Forward kinematics of the OPW paper/library with the given parameters."""
    np = env.np
    qo = [q[i] * par.sign_corrections[i] - par.offsets[i] for i in range(6)]
    c, s = [np.cos(x) for x in qo], [np.sin(x) for x in qo]
    Y = lambda i: np.array([[c[i], 0, s[i]], [0, 1, 0], [-s[i], 0, c[i]]])
    Z = lambda i: np.array([[c[i], -s[i], 0], [s[i], c[i], 0], [0, 0, 1]])
    R12 = np.matmul(Y(1), Y(2))
    R3 = np.matmul(Z(0), R12)
    w = np.array([par.a1, par.b, 0]) + np.matmul(Y(1), np.array([0, 0, par.c2])) + np.matmul(R12, np.array([par.a2, 0, par.c3]))
    p = np.array([0, 0, par.c1]) + np.matmul(Z(0), w)
    R = np.matmul(R3, np.matmul(Z(3), np.matmul(Y(4), Z(5))))
    return R, p + R[:, 2] * par.c4


def opw_arm(env, axis, signs, bend, extra=None, flange=None, base=False):
    """bend: where the arm is outstretched at zero ('up': nowhere, '2'/'3': from joint 2/3 on; 'slant': the upper arm leans)."""
    np, rox = env.np, env.rox
    lab = 'zyy' + axis + 'y' + axis
    H = np.array([[s * e for e in AX[a]] for a, s in zip(lab, signs)], dtype=float).T
    P = [[0.] * 3 for _ in range(7)]
    v = lambda n, lo=-1, hi=1: env.real(n, lo=lo, hi=hi)
    P[0] = [0, 0, v('z0')]
    P[1] = [v('x1'), v('y1'), v('z1')]
    up = axis == 'z'
    # upper arm
    l2 = v('l2', 0.2, 1)
    y2, y3, s2, l3, l4, l5, l6, e3 = v('y2'), v('y3'), v('s2', 0.05, 0.15), v('l3', 0.2, 1), v('l4', 0, 0.5), v('l5'), v('l6'), v('e3', -0.15, 0.15)
    if up or bend == '3':
        P[2] = [0, y2, l2]
    elif bend == 'slant':
        P[2] = [s2, y2, l2]
    else:
        P[2] = [l2, y2, 0]
    if bend == 'slant' and up:
        P[2] = [s2, y2, l2]
    if bend == '2slant':
        P[2] = [l2, y2, s2]
    if bend == 'any':
        # any direction of the upper arm, any elbow offset; which joint the arm bends at is left to the code
        P[2] = [v('u0'), y2, v('u2')]
        env.assume(env.And(*[env.Or(P[2][k] >= 0.01, P[2][k] <= -0.01) for k in (0, 2)]))
        l3, e3 = v('f0'), v('f2')
    if up:
        P[3], P[4], P[5], P[6] = [e3, y3, l3], [0, 0, l4], [0, 0, l5], [0, 0, l6]
    else:
        P[3], P[4], P[5], P[6] = [l3, y3, e3], [l4, 0, 0], [l5, 0, 0], [l6, 0, 0]
    if extra is not None:
        P[extra[0]][extra[1]] = P[extra[0]][extra[1]] + env.real('bad', lo=1e-4, hi=1) * env.choice('badsign', (1, -1))
    P = np.array([list(c) for c in P]).T
    F = np.array([[0., 0, 1], [0, 1, 0], [-1, 0, 0]]) if axis == 'x' else np.eye(3)
    m = {'T_flange': rox.Transform(F if flange is None else flange, np.zeros(3))}
    if base:
        m['T_base'] = rox.Transform(env.frame('Rb'), env.vec('pb', lo=-1, hi=1))
    return rox.Robot(H, P, [0] * 6, **m), H, P, m


ONES = [1] * 6
SIGNS = [[-1, 1, 1, 1, 1, 1], [1, -1, 1, 1, 1, 1], [1, 1, -1, 1, 1, 1], [1, 1, 1, -1, 1, 1], [1, 1, 1, 1, -1, 1], [1, 1, 1, 1, 1, -1], [-1] * 6]
OPWC = [dict(axis=a, bend=b, signs=ONES) for a, b in (('z', 'up'), ('z', 'slant'), ('x', '2'), ('x', '3'), ('x', 'slant'), ('x', '2slant'), ('x', 'any'), ('z', 'any'))] + \
    [dict(axis='x', bend=('2', '3')[i % 2], signs=s) for i, s in enumerate(SIGNS)] + [dict(axis='x', bend='any', signs=[-1, 1, -1, 1, -1, 1]), dict(axis='z', bend='slant', signs=[1, -1, 1, -1, 1, -1]), dict(axis='x', bend='slant', signs=[-1, 1, -1, 1, -1, 1])]


@scenario('C35', over=OPWC, thorough_over=[dict(axis=a, bend=b, signs=s) for a, b in (('z', 'up'), ('z', 'slant'), ('x', 'slant'), ('x', '2slant')) for s in SIGNS], budget=90)
def opw_parameters(env, axis, bend, signs):
    """Published OPW forward kinematics with the extracted parameters against the robot."""
    ts = tess(env)
    r, H, P, m = opw_arm(env, axis, signs, bend)
    par = ts.robot_to_opw_inv_kin_parameters(r)
    q = joints(env, [0] * 6)
    R, p = poe(env, H, P, [0] * 6, q, m)
    A, a = opw_fk(env, par, q)
    env.eq(A, R, 'orientation given by the parameters', ctol=1e-5)
    env.eq(a, p, 'position given by the parameters', ctol=1e-5)


WHOLE = {('x', '2'): [[0, 0, 3], [1, 0, 2], [4, 1, 0], [5, 0, -1], [2, 0, 0], [0, 0, 0], [1, 0, 0]],
         ('x', '3'): [[0, 0, 3], [1, 0, 2], [0, 0, 4], [5, 2, 1], [0, 0, 0], [0, 0, 0], [1, 0, 0]],
         ('x', 'slant'): [[0, 0, 3], [1, 0, 2], [1, 0, 4], [5, 0, 1], [1, 0, 0], [0, 0, 0], [1, 0, 0]],
         ('z', 'slant'): [[0, 0, 3], [1, 1, 2], [-1, 0, 4], [2, 0, 5], [0, 0, 1], [0, 0, 0], [0, 0, 1]]}


@scenario('C35', over=[dict(axis=a, bend=b, what=w) for a, b in WHOLE for w in ('P', 'H', 'PH')])
def opw_whole(env, axis, bend, what):
    """Link vectors or axes given as arrays of integers."""
    import numpy
    np, rox, ts = env.np, env.rox, tess(env)
    H = numpy.array([list(AX[a]) for a in 'zyy' + axis + 'y' + axis], dtype=int if 'H' in what else float).T
    P = numpy.array(WHOLE[axis, bend], dtype=int if 'P' in what else float).T
    m = {'T_flange': rox.Transform(np.array([[0., 0, 1], [0, 1, 0], [-1, 0, 0]]) if axis == 'x' else np.eye(3), np.zeros(3))}
    par = ts.robot_to_opw_inv_kin_parameters(rox.Robot(H, P, [0] * 6, **m))
    q = joints(env, [0] * 6)
    R, p = poe(env, np.array(H, dtype=np.float64), np.array(P, dtype=np.float64), [0] * 6, q, m)
    # the parameters are rounded to 6 digits
    A, a = opw_fk(env, par, q)
    env.eq(A, R, 'orientation given by the parameters', ctol=1e-4)
    env.eq(a, p, 'position given by the parameters', ctol=1e-4)


def refused(env, f, what):
    try:
        f()
    except Exception:
        env.require(True, 'refused')
    else:
        env.fail(what)


def displaced(env):
    # along one axis, either way
    f = [0, 0, 0]
    f[env.choice('along', (0, 1, 2))] = env.real('f', lo=1e-4, hi=1) * env.choice('fsign', (1, -1))
    return env.np.array(f)


@scenario('C35', over=[dict(bad=b) for b in ('base_x', 'base_y', 'wrist_y', 'wrist4_y', 'flange_y', 'flange_z', 'no flange', 'flange_pos', 'flange_rot', 'five', 'seven', 'sliding', 'axis')] +
          [dict(bad='axis%d' % i) for i in range(6)], budget=60)
def opw_refused(env, bad):
    """Arms that differ from the family in one respect."""
    np, rox = env.np, env.rox
    ts = tess(env)
    ex = {'base_x': (0, 0), 'base_y': (0, 1), 'wrist4_y': (4, 1), 'wrist_y': (5, 1), 'flange_y': (6, 1), 'flange_z': (6, 2)}
    flange = env.frame('Rf') if bad == 'flange_rot' else None
    r, H, P, m = opw_arm(env, 'x', ONES, env.choice('bend', ['2', '3']), ex.get(bad), flange)
    if bad == 'flange_rot':
        env.assume(flange[0, 2] <= 0.99999)
    if bad == 'no flange':
        r.T_flange = None
    if bad == 'flange_pos':
        r.T_flange.p = displaced(env)
    if bad == 'five':
        r = rox.Robot(H[:, 0:5], P[:, 0:6], [0] * 5, T_flange=r.T_flange)
    if bad == 'seven':
        r = rox.Robot(np.concatenate((H, H[:, 5:6]), axis=1), np.concatenate((P, env.vec('p7', lo=-1, hi=1).reshape((3, 1))), axis=1), [0] * 7, T_flange=r.T_flange)
    if bad == 'sliding':
        t = [0] * 6
        t[env.choice('joint', list(range(6)))] = 1
        r = rox.Robot(H, P, t, T_flange=r.T_flange)
    if bad.startswith('axis'):
        i = int(bad[4:] or 5)
        h = env.unit3('h')
        for k in ((2,), (1,), (1,), (0, 2), (1,), (0, 2))[i]:
            env.assume(h[k] * h[k] <= 0.99999)
        H = np.array(H)
        H[:, i] = h
        r = rox.Robot(H, P, [0] * 6, T_flange=r.T_flange)
    refused(env, lambda: ts.robot_to_opw_inv_kin_parameters(r), 'a robot of another shape is accepted for the OPW solver')


# ---------------------------------------------------------------- C36
def ur_arm(env, plus, split, extra=None, **kw):
    """split: the lateral offsets are distributed over neighbouring links."""
    np, rox = env.np, env.rox
    v = lambda n, lo=-1, hi=1: env.real(n, lo=lo, hi=hi)
    H = np.array([[0, 0, 1.], [0, -1, 0], [0, -1, 0], [0, -1, 0], [0, 0, -1], [0, -1, 0]]).T
    P = [[0, 0, v('d1')], [0, 0, 0], [v('a2'), 0, 0], [v('a3'), 0, 0], [0, v('y4'), v('d5')], [0, v('y5'), 0], [0, 0, 0]]
    if split:
        P[1][1], P[2][1], P[3][1], P[6][1] = v('y1'), v('y2'), v('y3'), v('y6')
    if extra is not None:
        P[extra[0]][extra[1]] = P[extra[0]][extra[1]] + v('bad', 1e-4, 1) * env.choice('badsign', (1, -1))
    P = np.array([list(c) for c in P]).T
    F, B, Z = np.array([[1., 0, 0], [0, 0, 1], [0, -1, 0]]).T, np.array([[-1., 0, 0], [0, -1, 0], [0, 0, 1]]), np.array([[-1., 0, 0], [0, -1, 0], [0, 0, 1]])
    if plus:
        H, P, F, B = np.matmul(Z, H), np.matmul(Z, P), np.matmul(Z, F), np.eye(3)
    m = {'T_flange': rox.Transform(F, np.zeros(3)), 'T_base': rox.Transform(B, np.zeros(3))}
    return rox.Robot(H, P, [0] * 6, **m, **kw), H, P, m


def ur_fk(env, par, q):
    """Denavit-Hartenberg forward kinematics as published by the manufacturer; the frame of the solver is rotated half a turn."""
    np = env.np
    a, d, al = [0, par.a2, par.a3, 0, 0, 0], [par.d1, 0, 0, par.d4, par.d5, par.d6], [1, 0, 0, 1, -1, 0]
    R, p = np.array([[-1., 0, 0], [0, -1, 0], [0, 0, 1]]), np.zeros(3)
    for i in range(6):
        c, s = np.cos(q[i]), np.sin(q[i])
        Z = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        X = np.array([[1, 0, 0], [0, 0, -al[i]], [0, al[i], 0]]) if al[i] else np.eye(3)
        p = p + np.matmul(R, np.array([0, 0, d[i]]) + a[i] * Z[:, 0])
        R = np.matmul(R, np.matmul(Z, X))
    return R, p


@scenario('C36', over=[dict(plus=p, split=s) for p in (False, True) for s in (False, True)], budget=90)
def ur_parameters(env, plus, split):
    """Published Denavit-Hartenberg forward kinematics with the extracted parameters against the robot."""
    ts = tess(env)
    r, H, P, m = ur_arm(env, plus, split)
    par = ts.robot_to_ur_inv_kin_parameters(r)
    q = joints(env, [0] * 6)
    R, p = poe(env, H, P, [0] * 6, q, m)
    A, a = ur_fk(env, par, q)
    env.eq(A, R, 'orientation given by the parameters')
    env.eq(a, p, 'position given by the parameters')


URBAD = {'x0': (0, 0), 'y0': (0, 1), 'x1': (1, 0), 'z1': (1, 2), 'z2': (2, 2), 'z3': (3, 2), 'x4': (4, 0), 'x5': (5, 0), 'z5': (5, 2), 'x6': (6, 0), 'z6': (6, 2)}


@scenario('C36', over=[dict(bad=b) for b in list(URBAD) + ['no flange', 'no base', 'flange_pos', 'base_pos', 'flange_rot', 'base_rot', 'five', 'seven', 'sliding'] + ['axis%d' % i for i in range(6)]], budget=60)
def ur_refused(env, bad):
    """Arms that differ from the family in one respect."""
    np, rox = env.np, env.rox
    ts = tess(env)
    plus = env.choice('plus', [False, True])
    r, H, P, m = ur_arm(env, plus, False, URBAD.get(bad))
    if bad == 'no flange':
        r.T_flange = None
    if bad == 'no base':
        r.T_base = None
    if bad == 'flange_pos':
        r.T_flange.p = displaced(env)
    if bad == 'base_pos':
        r.T_base.p = displaced(env)
    if bad in ('flange_rot', 'base_rot'):
        X = env.frame('Rx')
        env.assume(X[0, 0] <= 0.999)
        T = r.T_flange if bad == 'flange_rot' else r.T_base
        T.R = np.matmul(X, T.R)
    if bad == 'five':
        r = rox.Robot(H[:, 0:5], P[:, 0:6], [0] * 5, **m)
    if bad == 'seven':
        r = rox.Robot(np.concatenate((H, H[:, 5:6]), axis=1), np.concatenate((P, env.vec('p7', lo=-1, hi=1).reshape((3, 1))), axis=1), [0] * 7, **m)
    if bad == 'sliding':
        t = [0] * 6
        t[env.choice('joint', list(range(6)))] = 1
        r = rox.Robot(H, P, t, **m)
    if bad.startswith('axis'):
        i = int(bad[4:])
        h = env.unit3('h')
        env.assume(np.dot(h, H[:, i]) <= 0.99999)
        H = np.array(H)
        H[:, i] = h
        r = rox.Robot(H, P, [0] * 6, **m)
    refused(env, lambda: ts.robot_to_ur_inv_kin_parameters(r), 'a robot of another shape is accepted for the UR solver')


# ---------------------------------------------------------------- C37
def geojac(env, types, H, P, m, q, R, p):
    """Reference Jacobian of the tip, in the world frame, angular rows on top."""
    np = env.np
    T = (np.eye(3), np.zeros(3))
    if m.get('T_base') is not None:
        T = (m['T_base'].R, m['T_base'].p)
    cols = []
    for i, t in enumerate(types):
        o = T[1] + np.matmul(T[0], P[:, i])
        h = np.matmul(T[0], H[:, i])
        if t == 0:
            cols.append(list(h) + list(cross(np, h, p - o)))
            T = (np.matmul(T[0], rodrigues(np, H[:, i], np.cos(q[i]), np.sin(q[i]))), o)
        else:
            cols.append([0, 0, 0] + list(h))
            T = (T[0], o + h * q[i])
    return np.array(cols).T


WCONF = [dict(types=[0], axes=None, aux='b'), dict(types=[1, 0], axes=None, aux=''), dict(types=[0, 1], axes='zx', aux='tfb'), dict(types=[0] * 6, axes='zyyxyx', aux='f'),
         dict(types=[0] * 7, axes='zyzYzyz', aux='tb')]


@scenario('C37', over=WCONF, thorough_over=[dict(types=[0, 0], axes=None, aux='tfb'), dict(types=[0, 0, 0], axes=None, aux=''), dict(types=[0] * 6, axes='xyzXYZ', aux='tfb')], budget=90)
def wrapper_answers(env, types, axes, aux):
    """Values of the kinematics group come back in the toolbox conventions."""
    np, rox = env.np, env.rox
    ts = tess(env)
    r, H, P, m, lim = robot(env, types, axes, aux)
    given = env.choice('given', ['robot', 'env'])
    if given == 'robot':
        t = ts.TesseractRobot(r, 'arm')
    else:
        t = ts.TesseractRobot(tesseract_env=ts.robot_to_tesseract_env(r, 'arm'), robot_name='arm')
    q = joints(env, types)
    R, p = poe(env, H, P, types, q, m)
    T = t.fwdkin(q)
    env.require(T.p.shape == (3,), 'shape of a position')
    env.eq(T.R, R, 'orientation of the tip')
    env.eq(T.p, p, 'position of the tip')
    B = (m['T_base'].R, m['T_base'].p) if m.get('T_base') is not None else (np.eye(3), np.zeros(3))
    T = t.fwdkin(q, base_link_name='arm_base_link')
    env.eq(np.matmul(B[0], T.R), R, 'orientation of the tip in the base link')
    env.eq(B[1] + np.matmul(B[0], T.p), p, 'position of the tip in the base link')
    J = t.jacobian(q)
    env.eq(J, geojac(env, types, H, P, m, q, R, p), 'Jacobian of the tip')
    c = dict(m)
    c.pop('T_flange', None)
    c.pop('R_tool', None)
    Rc, pc = poe(env, H, P, types, q, c)
    T = t.fwdkin(q, tip_link_name='arm_chain_tip')
    env.eq(T.R, Rc, 'orientation of another link')
    env.eq(T.p, pc, 'position of another link')
    J = t.jacobian(q, link_name='arm_chain_tip')
    env.eq(J, geojac(env, types, H, P, c, q, Rc, pc), 'Jacobian of another link')
    J = t.jacobian(q, base_link_name='arm_base_link')
    W = geojac(env, types, H, P, m, q, R, p)
    env.eq(np.matmul(B[0], J[0:3, :]), W[0:3, :], 'angular rows in the base link')
    env.eq(np.matmul(B[0], J[3:6, :]), W[3:6, :], 'linear rows in the base link')


class Group:
    """A kinematics group that records what it is asked and gives arbitrary answers."""
    tips = ['arm_tip']

    def __init__(self, env, n, nsol, column):
        np = env.np
        self.env, self.n, self.calls = env, n, []
        sols = [np.array([env.real('s%d_%d' % (k, i)) for i in range(n)]) for k in range(nsol)]
        self.values = sols
        self.sols = [np.reshape(s, (n, 1)) if column else s for s in sols]
        self.J = np.array([[env.real('J%d_%d' % (i, j)) for j in range(n)] for i in range(6)])

    def getBaseLinkName(self):
        return 'root'

    def getAllPossibleTipLinkNames(self):
        return self.tips

    def calcInvKin(self, inputs, seed):
        self.calls.append(('ik', items(inputs), seed))
        return self.sols

    def calcJacobian(self, q, base, link):
        self.calls.append(('jac', q, base, link))
        return self.J


class Env:
    def __init__(self, g):
        self.g, self.asked = g, []

    def getKinematicGroup(self, n):
        self.asked.append(n)
        return self.g


@scenario('C37', over=[dict(n=n, nsol=k) for n, k in ((1, 0), (1, 1), (2, 3), (6, 2), (7, 1))], thorough_over=[dict(n=6, nsol=8), dict(n=3, nsol=5)])
def wrapper_requests(env, n, nsol):
    """What is asked of the kinematics group: names, frames, pose and seed."""
    np, rox = env.np, env.rox
    ts = tess(env)
    ts.KinGroupIKInput, ts.KinGroupIKInputs = tess_stub_input(env)
    g = Group(env, n, nsol, env.choice('column', [True, False]))
    e = Env(g)
    t = ts.TesseractRobot(robot_name='arm', tesseract_env=e)
    R, p = env.frame('R'), env.vec('p')
    T = rox.Transform(R, p)
    seed = np.array([env.real('seed%d' % i) for i in range(n)])
    kw = env.choice('links', [{}, {'base_link_name': 'b'}, {'tip_link_name': 't'}, {'base_link_name': 'b', 'tip_link_name': 't'}])
    r = t.invkin(T, seed, **kw)
    env.require(len(g.calls) == 1 and g.calls[0][0] == 'ik', 'one request')
    _, ins, sd = g.calls[0]
    env.require(len(ins) == 1, 'one pose is asked for')
    env.eq(np.reshape(sd, (-1,)), seed, 'seed')
    A = mats(ins[0].pose)
    env.eq(A[0], R, 'orientation asked for')
    env.eq(A[1], p, 'position asked for')
    env.require(ins[0].tip_link_name == kw.get('tip_link_name', 'arm_tip'), 'tip link asked for')
    env.require(ins[0].working_frame == kw.get('base_link_name', 'root'), 'frame of the pose')
    env.require(len(r) == nsol, 'every solution is returned')
    for a, b in zip(r, g.values):
        env.require(a.shape == (n,), 'shape of a solution')
        env.eq(a, b, 'solution')
    env.eq(T.R, R, 'pose left alone (R)')
    env.eq(T.p, p, 'pose left alone (p)')
    kw = env.choice('links2', [{}, {'base_link_name': 'b'}, {'link_name': 't'}])
    J = t.jacobian(seed, **kw)
    _, q, b, l = g.calls[1]
    env.eq(np.reshape(q, (-1,)), seed, 'configuration of the Jacobian')
    env.require(b == kw.get('base_link_name', 'root') and l == kw.get('link_name', 'arm_tip'), 'links of the Jacobian')
    env.eq(J[0:3, :], g.J[3:6, :], 'angular rows first')
    env.eq(J[3:6, :], g.J[0:3, :], 'linear rows last')
    env.require(set(e.asked) == {'arm'}, 'group of the named robot')


def tess_stub_input(env):
    """The library's input list cannot be read back from Python: a plain record in both runs."""
    class In:
        def __init__(self, pose=None, working_frame=None, tip_link_name=None):
            self.pose, self.working_frame, self.tip_link_name = pose, working_frame, tip_link_name

    class Ins(list):
        pass
    return In, Ins


@scenario('C37', over=[dict(n=n) for n in (1, 2, 3)])
def redundant(env, n):
    """Redundant solutions are requested with the limits of the group and passed back."""
    np = env.np
    ts = tess(env)
    types = [0] * n
    r, H, P, m, lim = robot(env, types, 'zyx'[:n], '')
    t = ts.TesseractRobot(r, 'arm')
    th = np.array([env.real('th%d' % i, lo=-3, hi=3) for i in range(n)])
    s = t.redundant_solutions(th)
    for x in s:
        env.require(x.shape == (n,), 'shape of a solution')
    if env.symbolic:
        (a, l, i, out), = env.y.red
        env.eq(np.reshape(a, (-1,)), th, 'configuration handed on')
        for k in range(n):
            env.eq(l[k, 0], lim['joint_lower_limit'][k], 'lower limit')
            env.eq(l[k, 1], lim['joint_upper_limit'][k], 'upper limit')
        env.require(list(i) == list(range(n)), 'joints that can turn')
        env.require(len(s) == len(out), 'every solution is returned')
        for x, y in zip(s, out):
            env.eq(x, np.reshape(y, (-1,)), 'solution')
    else:
        for x in s:
            env.require(bool(np.all(x >= lim['joint_lower_limit'] - 1e-6) and np.all(x <= lim['joint_upper_limit'] + 1e-6)), 'within the limits')
            env.eq(np.cos(x), np.cos(th), 'whole turns')
            env.eq(np.sin(x), np.sin(th), 'whole turns')


@scenario('C37')
def integer_input(env):
    """Whole numbers and lists are accepted where arrays of floats are."""
    np, rox = env.np, env.rox
    ts = tess(env)
    r = rox.Robot(np.array([[0, 0, 1], [0, 1, 0]]).T, np.array([[0, 0, 1], [1, 0, 0], [0, 0, 2]]).T, [0, 1], joint_lower_limit=[-3, -2], joint_upper_limit=[3, 2],
                  joint_vel_limit=[1, 1], joint_acc_limit=np.array([2, 2]), T_flange=rox.Transform(np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), [1, 0, 0]))
    t = ts.TesseractRobot(r, 'arm')
    d = env.real('d', lo=-2, hi=2)
    a, b = t.fwdkin([0, d]), rox.fwdkin(r, [0, d])
    env.eq(a.R, b.R, 'orientation')
    env.eq(a.p, b.p, 'position')
    env.eq(t.jacobian([0, d]), rox.robotjacobian(r, [0, d]), 'Jacobian')
    c = t.fwdkin(np.array([0, 1]))
    d = rox.fwdkin(r, np.array([0, 1]))
    env.eq(c.p, d.p, 'position of a whole number configuration')
    t.redundant_solutions([0, 0])
    env.require(True, 'accepted')


@scenario('C37')
def wrapper_arguments(env):
    """Neither or both of robot and environment, or an unknown solver: refused."""
    ts = tess(env)
    r, H, P, m, lim = robot(env, [0], 'z', '')
    refused(env, lambda: ts.TesseractRobot(), 'neither a robot nor an environment is accepted')
    refused(env, lambda: ts.TesseractRobot(r, 'arm', tesseract_env=ts.robot_to_tesseract_env(r, 'arm')), 'both a robot and an environment are accepted')
    refused(env, lambda: ts.TesseractRobot(r, 'arm', invkin_solver='Other'), 'an unknown solver is accepted')


# ---------------------------------------------------------------- C38
def leaf(env, a, b, label):
    """Equal descriptions (dictionaries, lists, texts, numbers)."""
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            env.fail(label + ': keys')
            return
        for k in b:
            leaf(env, a[k], b[k], '%s.%s' % (label, k))
    elif isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            env.fail(label + ': length')
            return
        for i, (x, y) in enumerate(zip(a, b)):
            leaf(env, x, y, '%s[%d]' % (label, i))
    elif isinstance(b, str):
        env.require(a == b, label)
    else:
        env.eq(a, b, label)


def parse(env, s):
    return env.y.dec(realyaml.safe_load(s)) if env.symbolic else realyaml.safe_load(s)


def fk_part(name, base, tip):
    return {name: {'default': 'KDLFwdKinChain', 'plugins': {'KDLFwdKinChain': {'class': 'KDLFwdKinChainFactory', 'config': {'base_link': base, 'tip_link': tip}}}}}


def kdl_part(name, base, tip, default):
    c = {'base_link': base, 'tip_link': tip}
    return {name: {'default': default, 'plugins': {'KDLInvKinChainLMA': {'class': 'KDLInvKinChainLMAFactory', 'config': c},
                                                   'KDLInvKinChainNR': {'class': 'KDLInvKinChainNRFactory', 'config': c}}}}


def an_part(name, solver, base, tip, par):
    return {name: {'default': solver, 'plugins': {solver: {'class': solver + 'Factory', 'config': {'base_link': base, 'tip_link': tip, 'params': par}}}}}


LINKS = [{}, {'base_link': 'b0'}, {'tip_link': 't0'}, {'base_link': 'b0', 'tip_link': 't0'}]


def describe(env, ts, args, kw, want_ik, lib, name, base, tip):
    want = {'search_libraries': [lib], 'fwd_kin_plugins': fk_part(name, base, tip), 'inv_kin_plugins': want_ik}
    d = ts.kinematics_plugin_info_dict(*args, **kw)
    leaf(env, d, {'kinematic_plugins': want}, 'description')
    s = ts.kinematics_plugin_info_string(*args, **kw)
    env.require(isinstance(s, str), 'text')
    leaf(env, parse(env, s), {'kinematic_plugins': want}, 'text')


@scenario('C38', over=[dict(solver=s) for s in (None, 'KDLInvKinChainLMA', 'KDLInvKinChainNR')])
def kdl_description(env, solver):
    """Names of chain and solver for the iterative solver."""
    ts = tess(env)
    r, H, P, m, lim = robot(env, [0, 1], 'zx', 't')
    name = env.choice('name', ['robot', 'left arm'])
    kw = dict(env.choice('links', LINKS))
    base, tip = kw.get('base_link', 'L0'), kw.get('tip_link', 'L9')
    args = (r, name, ['L0', 'L1', 'L2', 'L9'], ['j1', 'j2'], ['L0', 'L1', 'L2'])
    if solver is not None or env.choice('explicit', [False, True]):
        kw['invkin_solver'] = solver
    describe(env, ts, args, kw, kdl_part(name, base, tip, solver or 'KDLInvKinChainLMA'), 'tesseract_kinematics_kdl_factories', name, base, tip)


@scenario('C38', over=[dict(axis='x', bend='2', signs=[1, 1, -1, 1, 1, -1]), dict(axis='x', bend='3', signs=ONES), dict(axis='z', bend='slant', signs=ONES)], budget=60)
def opw_description(env, axis, bend, signs):
    """Names, parameters and offsets for the OPW solver."""
    ts = tess(env)
    r, H, P, m = opw_arm(env, axis, signs, bend)
    name = env.choice('name', ['robot', 'left'])
    kw = dict(env.choice('links', LINKS))
    base, tip = kw.get('base_link', 'L0'), kw.get('tip_link', 'L9')
    args = (r, name, ['L0', 'L1', 'L9'], ['j%d' % i for i in range(6)], ['C0', 'C1', 'C2'])
    kw['invkin_solver'] = 'OPWInvKin'
    par = ts.robot_to_opw_inv_kin_parameters(r)
    p = {k: getattr(par, k) for k in ('a1', 'a2', 'b', 'c1', 'c2', 'c3', 'c4')}
    p['offsets'] = [par.offsets[i] for i in range(6)]
    p['sign_corrections'] = [par.sign_corrections[i] for i in range(6)]
    describe(env, ts, args, kw, an_part(name, 'OPWInvKin', 'C0', name + '_flange', p), 'tesseract_kinematics_opw_factories', name, base, tip)


@scenario('C38', over=[dict(plus=p, split=s) for p, s in ((False, True), (True, False))], budget=60)
def ur_description(env, plus, split):
    """Names and parameters for the UR solver."""
    ts = tess(env)
    np = env.np
    tool = {'R_tool': env.frame('Rt'), 'p_tool': env.vec('pt')} if env.choice('tool', [False, True]) else {}
    r, H, P, m = ur_arm(env, plus, split, **tool)
    name = env.choice('name', ['robot', 'left'])
    kw = dict(env.choice('links', [{'base_link': 'b0'}, {'base_link': 'b0', 'tip_link': 't0'}]))
    base, tip = kw['base_link'], kw.get('tip_link', 'L9')
    args = (r, name, ['L0', 'L1', 'L9'], ['j%d' % i for i in range(6)], ['C0', 'C1', 'C2'])
    kw['invkin_solver'] = 'URInvKin'
    par = ts.robot_to_ur_inv_kin_parameters(r)
    p = {k: getattr(par, k) for k in ('d1', 'a2', 'a3', 'd4', 'd5', 'd6')}
    describe(env, ts, args, kw, an_part(name, 'URInvKin', base, name + '_flange', p), 'tesseract_kinematics_ur_factories', name, base, tip)


@scenario('C38')
def parameter_values(env):
    """The solver specific parts carry the values they are given."""
    np = env.np
    ts = tess(env)
    x = [env.real('x%d' % i) for i in range(7)]
    off = np.array([env.real('o%d' % i) for i in range(6)])
    sg = np.array([float(s) for s in env.choice('signs', [(1, 1, 1, 1, 1, 1), (1, -1, 1, -1, -1, 1), (-1,) * 6])])
    d, lib = ts.kinematics_plugin_invkin_opw_plugin_info_dict('n', 'b', 't', ts.OPWInvKinParameters(*x, off, sg))
    p = dict(zip(('a1', 'a2', 'b', 'c1', 'c2', 'c3', 'c4'), x), offsets=list(off), sign_corrections=list(sg))
    leaf(env, d, {'inv_kin_plugins': an_part('n', 'OPWInvKin', 'b', 't', p)}, 'OPW')
    d, lib = ts.kinematics_plugin_invkin_ur_plugin_info_dict('n', 'b', 't', ts.URInvKinParameters(*x[0:6]))
    leaf(env, d, {'inv_kin_plugins': an_part('n', 'URInvKin', 'b', 't', dict(zip(('d1', 'a2', 'a3', 'd4', 'd5', 'd6'), x)))}, 'UR')


@scenario('C38')
def given_description(env):
    """A description of the inverse kinematics given by the caller takes precedence."""
    ts = tess(env)
    r, H, P, m, lim = robot(env, [0], 'z', '')
    args = (r, 'n', ['L0', 'L1', 'L9'], ['j1'], ['L0', 'L1'])
    ik = {'n': {'default': 'Mine', 'plugins': {'Mine': {'class': 'MineFactory', 'config': {'x': env.real('x')}}}}}
    s = env.choice('solver', [None, 'KDLInvKinChainNR', 'OPWInvKin', 'URInvKin'])
    kw = dict(invkin_plugin_info=({'inv_kin_plugins': ik}, ['my_factories']), invkin_solver=s)
    describe(env, ts, args, kw, ik, 'my_factories', 'n', 'L0', 'L9')


@scenario('C38', over=[dict(solver=s) for s in ('opw', 'OPWInvKin', 'URInvKin', 'KDLInvKin', '')])
def unsupported(env, solver):
    """Unknown solvers, and robots that the analytic solvers cannot serve."""
    ts = tess(env)
    if solver in ('OPWInvKin', 'URInvKin'):
        r = robot(env, [0] * 6, 'zyyxyx' if solver == 'URInvKin' else 'zYYYZY', 'f')[0]
    elif env.choice('arm', ['ur', 'opw']) == 'ur':
        r = ur_arm(env, False, False)[0]
    else:
        r = opw_arm(env, 'x', ONES, '2')[0]
    args = (r, 'n', ['L0', 'L1', 'L9'], ['j%d' % i for i in range(6)], ['L0', 'L1'])
    for f in (ts.kinematics_plugin_info_dict, ts.kinematics_plugin_info_string):
        refused(env, lambda: f(*args, invkin_solver=solver), 'an unsupported combination is accepted')


@scenario('C38', over=[dict(solver=s) for s in ('KDLInvKinChainNR', 'OPWInvKin', 'URInvKin')], budget=60)
def information(env, solver):
    """The information handed to the environment: chain group and solver description."""
    ts = tess(env)
    if solver == 'OPWInvKin':
        r = opw_arm(env, 'x', ONES, '2')[0]
    elif solver == 'URInvKin':
        r = ur_arm(env, False, False)[0]
    else:
        r = robot(env, [0], 'z', '')[0]
    n = len(r.joint_type)
    kw = dict(env.choice('links', LINKS))
    args = (r, 'n', ['L0', 'L1', 'L9'], ['j%d' % i for i in range(n)], ['C0', 'C1', 'C2'])
    told = []
    if not env.symbolic:
        # the parsed form cannot be read back from the library; note what it is given
        parse = ts.parseKinematicsPluginConfigString
        ts.parseKinematicsPluginConfigString = lambda t: told.append(t) or parse(t)
    try:
        i = ts.tesseract_kinematics_information(*args, invkin_solver=solver, **kw)
    finally:
        if not env.symbolic:
            ts.parseKinematicsPluginConfigString = parse
    (base, tip), = list(i.chains['n'] if env.symbolic else i.chain_groups['n'])
    env.require(base == kw.get('base_link', 'L0') and tip == kw.get('tip_link', 'L9'), 'ends of the chain')
    want = ts.kinematics_plugin_info_dict(*args, invkin_solver=solver, **kw)
    if env.symbolic:
        leaf(env, i.kinematics_plugin_info.data, want, 'solver description')
    else:
        import yaml
        env.require(i.hasChainGroup('n'), 'chain group')
        for t in told:
            env.require(yaml.safe_load(t) == yaml.safe_load(yaml.safe_dump(want)), 'solver description')
