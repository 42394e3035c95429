"""C28: robot and tool description files (YAML)."""
import io
import types
from symx.reg import scenario
from checks.c09_model import poe


def xyz(v):
    return {'x': v[0], 'y': v[1], 'z': v[2]}


def wxyz(q):
    return {'w': q[0], 'x': q[1], 'y': q[2], 'z': q[3]}


def pose(q, p, form):
    if form:
        return {'translation': xyz(p), 'rotation': wxyz(q)}
    return {'orientation': wxyz(q), 'position': xyz(p)}


def ident(name, form):
    return {'name': name, 'uuid': 'u-' + name} if form else name


def listed(env, d):
    """The same content as plain Python numbers (for the text form)."""
    if isinstance(d, dict):
        return {k: listed(env, v) for k, v in d.items()}
    if isinstance(d, list):
        return [listed(env, v) for v in d]
    if d is None or isinstance(d, (str, int, bool)) or env.symbolic:
        return d
    return float(d)


def source(env, docs, as_file):
    """The documents as dictionaries or as open files (symbolically: as handles the YAML reader resolves)."""
    docs = [listed(env, d) for d in docs]
    if not as_file:
        return docs
    if env.symbolic:
        table = {}
        hs = []
        for d in docs:
            h = io.StringIO('')
            table[id(h)] = d
            hs.append(h)

        def safe_load(f):
            return table[id(f)]
        env.stubs['yaml'] = types.SimpleNamespace(safe_load=safe_load, load=lambda f, Loader=None: table[id(f)], SafeLoader=None)
        return hs
    import yaml
    return [io.StringIO(yaml.safe_dump(d)) for d in docs]


class Described:
    pass


def describe(env, types, numbers, total, form=0, opt='', tag=''):
    """A robot description with symbolic numbers; returns (chain, joint_info, expectation)."""
    n = len(types)
    e = Described()
    e.H = [env.unit3('h%s%d' % (tag, i)) for i in range(n)]
    e.P = [env.vec('p%s%d' % (tag, i), lo=-3, hi=3) for i in range(n + 1)]
    e.types = list(types)
    e.lim = []
    info = []
    k = 0
    for j in range(total):
        mine = j in numbers
        if mine:
            t = types[k]
            k += 1
        else:
            t = j % 2
        lo, hi = env.real('lo%s%d' % (tag, j), lo=-9, hi=9), env.real('hi%s%d' % (tag, j), lo=-9, hi=9)
        env.assume(lo <= hi)
        ve, ac = env.real('ve%s%d' % (tag, j), lo=0, hi=9), env.real('ac%s%d' % (tag, j), lo=0, hi=90)
        name = 'joint%s_%d' % (tag, j)
        if 'noname' in opt and j == numbers[0]:
            ji = None
        else:
            ji = ident(name, (form + j) % 2)
        info.append({'joint_identifier': ji, 'joint_type': ('revolute', 'prismatic')[t],
                     'joint_limits': {'lower': lo, 'upper': hi, 'velocity': ve, 'acceleration': ac, 'effort': 100.0}})
        if mine:
            e.lim.append((lo, hi, ve, ac, '' if ji is None else name))
    qf, pf = env.unitquat('qf' + tag), env.vec('pf' + tag)
    chain = {'H': [xyz(h) for h in e.H], 'P': [xyz(p) for p in e.P], 'joint_numbers': list(numbers),
             'flange_pose': pose(qf, pf, form % 2), 'flange_identifier': ident('flange' + tag, form % 2)}
    e.tip, e.root, e.tool, e.base = 'flange' + tag, None, None, None
    e.flange = (qf, pf)
    if 'noflangename' in opt:
        chain['flange_identifier'] = None
        e.tip = None
    if 'links' in opt:
        chain['link_identifiers'] = [ident('link%s_%d' % (tag, i), (form + i + 1) % 2) for i in range(n + 1)]
        e.root = 'link%s_0' % tag
    elif 'nolinks' in opt:
        chain['link_identifiers'] = []
    elif 'nullink' in opt:
        chain['link_identifiers'] = [None, 'x']
    if 'tool' in opt:
        qt, pt = env.unitquat('qt' + tag), env.vec('pt' + tag)
        chain['current_tool'] = {'tcp': pose(qt, pt, (form + 1) % 2)}
        e.tool = (qt, pt)
        if 'named' in opt:
            chain['current_tool']['device_info'] = {'device': ident('gripper' + tag, form % 2)}
            e.tip = 'gripper' + tag
    elif 'nulltcp' in opt:
        chain['current_tool'] = {'tcp': None, 'device_info': {'device': {'name': 'gripper'}}}
    elif 'nulltool' in opt:
        chain['current_tool'] = None
    return chain, info, e


def add_base(env, doc, es, opt, form):
    if 'base' in opt:
        qb, pb = env.unitquat('qb'), env.vec('pb')
        doc['device_info'] = {'device': {'name': 'r'}, 'device_origin_pose': {'pose': pose(qb, pb, form % 2)}}
        for e in es:
            e.base = (qb, pb)
    elif 'device' in opt:
        doc['device_info'] = {'device': {'name': 'r'}}


def expect(env, r, e, kin=True):
    np = env.np
    from symx.env import quatR
    n = len(e.types)
    if kin and not env.choice('part', ('attributes', 'motion')) == 'attributes':
        q = [0.3 * (i + 1) for i in range(n)]
        for i in range(n):
            env.assume(env.And(e.lim[i][0] <= 0, e.lim[i][1] >= 2))
        T = env.rox.fwdkin(r, np.array(q))
        aux = {}
        if e.tool is not None:
            aux['tool'] = (quatR(np, e.tool[0]), e.tool[1])
        aux['flange'] = (quatR(np, e.flange[0]), e.flange[1])
        if e.base is not None:
            aux['base'] = (quatR(np, e.base[0]), e.base[1])
        R, p = poe_aux(env, np.array(e.H).T, np.array(e.P).T, e.types, q, aux)
        env.eq(T.R, R, 'rotation of the loaded robot')
        env.eq(T.p, p, 'position of the loaded robot')
        return
    env.eq(r.H, np.array(e.H).T, 'axes')
    env.eq(r.P, np.array(e.P).T, 'link vectors')
    env.require(len(r.joint_type) == n and all(int(a) == b for a, b in zip(r.joint_type, e.types)), 'joint types')
    for i, (at, w) in enumerate((('joint_lower_limit', 'lower limits'), ('joint_upper_limit', 'upper limits'), ('joint_vel_limit', 'velocity limits'),
                                 ('joint_acc_limit', 'acceleration limits'))):
        env.eq(getattr(r, at), np.array([x[i] for x in e.lim]), w)
    env.require(list(r.joint_names) == [x[4] for x in e.lim], 'joint names')
    env.require(r.root_link_name == e.root, 'root link')
    env.require(r.tip_link_name == e.tip, 'tip link')
    if e.tool is None:
        env.require(r.R_tool is None and r.p_tool is None, 'no tool')
    else:
        env.require(r.R_tool is not None and r.p_tool is not None, 'tool')
        env.eq(r.R_tool, quatR(np, e.tool[0]), 'tool rotation')
        env.eq(np.array(r.p_tool).flatten(), e.tool[1], 'tool position')
    for T, w, m in ((r.T_flange, e.flange, 'flange'), (r.T_base, e.base, 'base')):
        if w is None:
            env.require(T is None, 'no ' + m)
        else:
            env.require(T is not None, m)
            env.eq(T.R, quatR(np, w[0]), m + ' rotation')
            env.eq(T.p, w[1], m + ' position')


def poe_aux(env, H, P, types, q, aux):
    np = env.np
    R, p = poe(env, H, P, types, q, {})
    for k in ('flange', 'tool'):
        if k in aux:
            p = p + np.matmul(R, aux[k][1])
            R = np.matmul(R, aux[k][0])
    if 'base' in aux:
        p = aux['base'][1] + np.matmul(aux['base'][0], p)
        R = np.matmul(aux['base'][0], R)
    return R, p


LOADS = [dict(types=t, numbers=m, total=k, form=f, opt=o, as_file=a) for t, m, k, f, o, a in (
    ([0], [0], 1, 0, '', False), ([1], [0], 2, 1, 'links base', True), ([0, 1], [1, 2], 3, 0, 'links tool named', False), ([1, 0], [0, 2], 3, 1, 'tool base', True),
    ([0, 0, 1], [0, 1, 3], 4, 0, 'nolinks base tool named', False), ([1, 1, 0], [1, 2, 4], 5, 1, 'nullink noflangename nulltool', True),
    ([0, 1, 0, 1], [0, 1, 2, 3], 4, 0, 'noname device nulltcp links', False), ([1, 0, 0, 0], [2, 3, 4, 5], 6, 1, 'links tool named base device', False))]


@scenario('C28', over=LOADS, thorough_over=[dict(types=[i % 2 for i in range(7)], numbers=list(range(7)), total=7, form=f, opt=o, as_file=bool(f))
                                            for f in (0, 1) for o in ('', 'links tool named base', 'tool base noname', 'nulltcp nolinks noflangename')])
def load_robot(env, types, numbers, total, form, opt, as_file):
    """One chain: all attributes and the motion of the loaded robot."""
    chain, info, e = describe(env, types, numbers, total, form, opt)
    doc = {'chains': [chain], 'joint_info': info}
    add_base(env, doc, [e], opt, form)
    s, = source(env, [doc], as_file)
    rr = env.mod('robotraconteur')
    expect(env, rr.load_robot_info_yaml_to_robot(s), e)


@scenario('C28', over=[dict(k=k, form=f, as_file=a) for k in (0, 1, 2) for f, a in ((0, False), (1, True))])
def load_chain(env, k, form, as_file):
    """Several chains in one description, each with its own joints, flange and tool: the requested one is loaded; one beyond the last is refused."""
    c0, info, e0 = describe(env, [0, 1], [0, 1], 3, form, 'links tool named', 'a')
    c1, more, e1 = describe(env, [1, 0], [1, 2], 3, 1 - form, '', 'b')
    c1['joint_numbers'] = [4, 5]
    doc = {'chains': [c0, c1], 'joint_info': info + more}
    add_base(env, doc, [e0, e1], 'base', form)
    s, = source(env, [doc], as_file)
    rr = env.mod('robotraconteur')
    if k < 2:
        expect(env, rr.load_robot_info_yaml_to_robot(s, k), (e0, e1)[k])
        return
    try:
        rr.load_robot_info_yaml_to_robot(s, 2)
    except Exception:
        env.require(True, 'refused')
    else:
        env.fail('a chain that is not in the description was loaded')


@scenario('C28', over=[dict(opt=o, form=f, as_file=a, chain=c) for o, f, a, c in (('', 0, False, 0), ('tool named links', 1, True, 0), ('base', 0, True, 1), ('tool base', 1, False, 1))])
def load_tool(env, opt, form, as_file, chain):
    """A separate tool description replaces any tool of the robot; everything else is kept."""
    c, info, e = describe(env, [0, 1], [0, 2], 3, form, opt)
    doc = {'chains': [c], 'joint_info': info}
    add_base(env, doc, [e], opt, form)
    if chain:
        other, more, _ = describe(env, [1], [0], 1, form, 'tool named', 'o')
        other['joint_numbers'] = [3]
        doc['chains'].insert(0, other)
        doc['joint_info'] = info + more
    qt, pt = env.unitquat('tq'), env.vec('tp')
    tool = {'tcp': pose(qt, pt, form), 'device_info': {'device': ident('mygripper', 1 - form)}}
    a, b = source(env, [doc, tool], as_file)
    rr = env.mod('robotraconteur')
    r = rr.load_robot_and_tool_info_yaml_to_robot(a, b, chain) if chain else rr.load_robot_and_tool_info_yaml_to_robot(a, b)
    e.tool, e.tip = (qt, pt), 'mygripper'
    expect(env, r, e)


BAD = ['no chains', 'null chains', 'short H', 'long H', 'short P', 'long P', 'null H', 'null P', 'number out of range', 'number negative', 'numbers equal', 'numbers decreasing', 'unknown type',
       'null limits', 'no upper', 'no lower', 'no flange pose', 'axis not unit', 'bad pose', 'bad tool pose', 'no joint info']


@scenario('C28', over=[dict(bad=b, n=n) for b in BAD for n in (2, 3)])
def load_refused(env, bad, n):
    """Missing or wrongly sized parts are refused."""
    at = env.choice('at', list(range(n)))
    c, info, e = describe(env, [0, 1, 0][:n], list(range(n)), n, 0, 'links')
    doc = {'chains': [c], 'joint_info': info}
    if bad == 'no chains':
        del doc['chains']
    elif bad == 'null chains':
        doc['chains'] = None
    elif bad.startswith('short'):
        del c[bad[-1]][at]
    elif bad.startswith('long'):
        c[bad[-1]].insert(at, dict(c[bad[-1]][0]))
    elif bad in ('null H', 'null P'):
        c[bad[-1]] = None
    elif bad == 'number out of range':
        c['joint_numbers'] = [x + at + 1 for x in c['joint_numbers']]
    elif bad == 'number negative':
        # increasing, and every number would name an entry counted from the end
        c['joint_numbers'] = [x - at - 1 for x in c['joint_numbers']]
    elif bad == 'numbers equal':
        c['joint_numbers'][max(at, 1)] = c['joint_numbers'][max(at, 1) - 1]
    elif bad == 'numbers decreasing':
        c['joint_numbers'] = c['joint_numbers'][::-1]
    elif bad == 'unknown type':
        info[at]['joint_type'] = env.choice('t', ['continuous', 'fixed', '', None, 0])
    elif bad == 'null limits':
        info[at]['joint_limits'] = None
    elif bad in ('no upper', 'no lower'):
        del info[at]['joint_limits'][bad[3:]]
    elif bad == 'no flange pose':
        del c['flange_pose']
    elif bad == 'axis not unit':
        c['H'][at] = {k: 1.1 * v for k, v in c['H'][at].items()}
    elif bad == 'bad pose':
        x = c['flange_pose'][env.choice('part', ['position', 'orientation'])]
        del x[env.choice('k', ['x', 'y', 'z'])]
    elif bad == 'bad tool pose':
        c['current_tool'] = {'tcp': pose(env.unitquat('tq'), env.vec('tp'), 0)}
        x = c['current_tool']['tcp'][env.choice('part', ['position', 'orientation'])]
        del x[env.choice('k', ['x', 'y', 'z'])]
    elif bad == 'no joint info':
        doc['joint_info'] = info[:at]
    s, = source(env, [doc], False)
    rr = env.mod('robotraconteur')
    try:
        rr.load_robot_info_yaml_to_robot(s)
    except Exception:
        env.require(True, 'refused')
    else:
        env.fail('accepted: ' + bad)


@scenario('C28')
def load_twice(env):
    """Loading is repeatable and leaves the description unchanged; the robots are independent."""
    np = env.np
    c, info, e = describe(env, [0, 1], [0, 1], 2, 0, 'links tool named')
    doc = {'chains': [c], 'joint_info': info}
    add_base(env, doc, [e], 'base', 0)
    s, = source(env, [doc], False)
    tool = {'tcp': pose(env.unitquat('tq'), env.vec('tp'), 1), 'device_info': {'device': 'g2'}}
    rr = env.mod('robotraconteur')
    a = rr.load_robot_info_yaml_to_robot(s)
    rr.load_robot_and_tool_info_yaml_to_robot(s, listed(env, tool))
    expect(env, a, e, kin=False)
    b = rr.load_robot_info_yaml_to_robot(s)
    expect(env, b, e)
