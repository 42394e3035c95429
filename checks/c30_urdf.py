"""C30, C31: robots loaded from URDF descriptions.

The text is parsed by the installed URDF parser.  Symbolically the numbers in the text are placeholders that are exchanged for
symbols in the parsed tree; concretely the text carries the numbers themselves."""
import os
import tempfile
import types
from symx.reg import scenario
from checks.c09_model import rodrigues, AX
from checks.c01_rotation import rx, ry, rz


class Numbers:
    def __init__(self, env):
        self.env = env
        self.table = {}

    def __call__(self, x):
        if not self.env.symbolic or isinstance(x, (int, float)):
            return repr(float(x))
        k = 1000003.25 + 0.5 * len(self.table)
        self.table[k] = x
        return repr(k)

    def vec(self, v):
        return ' '.join(self(x) for x in v)


def patch(o, table, seen):
    if isinstance(o, float):
        return table.get(o, o)
    if isinstance(o, list):
        for i, x in enumerate(o):
            o[i] = patch(x, table, seen)
        return o
    if isinstance(o, tuple):
        return tuple(patch(x, table, seen) for x in o)
    if isinstance(o, dict):
        for k in list(o):
            o[k] = patch(o[k], table, seen)
        return o
    if hasattr(o, '__dict__') and not isinstance(o, type) and id(o) not in seen:
        seen[id(o)] = o
        for k, v in list(vars(o).items()):
            if isinstance(v, (float, list, tuple, dict)) or hasattr(v, '__dict__'):
                w = patch(v, table, seen)
                if w is not v:
                    o.__dict__[k] = w
    return o


# stands in for the ROS parameter server
PARAMS = {}


def install(env, nums):
    if not env.symbolic:
        env.stubs['rospy'] = types.SimpleNamespace(get_param=lambda key: PARAMS[key])
        return
    import urdf_parser_py.urdf as U

    class URDF(U.URDF):
        @classmethod
        def from_xml_string(cls, s):
            return patch(U.URDF.from_xml_string(s), nums.table, {})

        @classmethod
        def from_xml_file(cls, f):
            return patch(U.URDF.from_xml_file(f), nums.table, {})

        @classmethod
        def from_parameter_server(cls, key='robot_description'):
            return cls.from_xml_string(PARAMS[key])
    m = types.ModuleType('urdf_parser_py.urdf')
    m.__dict__.update(vars(U))
    m.URDF = URDF
    m.Robot = URDF
    p = types.ModuleType('urdf_parser_py')
    p.urdf = m
    env.stubs['urdf_parser_py'] = p
    env.stubs['urdf_parser_py.urdf'] = m


NAME = {'r': 'revolute', 'p': 'prismatic', 'f': 'fixed', 'c': 'continuous', 'l': 'floating', 'n': 'planar'}


class J:
    """One joint of the description."""

    def __init__(self, env, name, t, parent, child, origin='xr', axis=None, limit=True, axis_tag=True):
        self.name, self.t, self.parent, self.child = name, t, parent, child
        self.xyz = env.vec('x' + name, lo=-2, hi=2) if 'x' in origin else None
        self.rpy = [env.angle('%s%s' % (c, name), lo=-3.1, hi=3.1) for c in 'rpy'] if 'r' in origin else ([0, 0, env.angle('y' + name, lo=-3.1, hi=3.1)] if 'y' in origin else None)
        self.tag = 'e' in origin or self.xyz is not None or self.rpy is not None
        self.axis = None
        self.axis_tag = axis_tag
        if t in 'rpc':
            self.axis = [1, 0, 0] if not axis_tag else (env.unit3('a' + name) if axis is None else list(AX[axis]))
        self.limit = None
        if limit and t in 'rp':
            self.limit = (env.real('lo' + name, lo=-9, hi=-2), env.real('hi' + name, lo=2, hi=9), env.real('ve' + name, lo=0, hi=9), env.real('ef' + name, lo=0, hi=99))

    def xml(self, n):
        s = '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/>' % (self.name, NAME[self.t], self.parent, self.child)
        if self.tag:
            s += '<origin%s%s/>' % (' xyz="%s"' % n.vec(self.xyz) if self.xyz is not None else '', ' rpy="%s"' % n.vec(self.rpy) if self.rpy is not None else '')
        if self.axis is not None and self.axis_tag:
            s += '<axis xyz="%s"/>' % n.vec(self.axis)
        if self.limit is not None:
            s += '<limit lower="%s" upper="%s" velocity="%s" effort="%s"/>' % tuple(n(x) for x in self.limit)
        return s + '</joint>'

    def origin(self, np):
        R, p = np.eye(3), np.zeros(3)
        if self.rpy is not None:
            a = self.rpy
            R = np.matmul(rz(np, np.cos(a[2]), np.sin(a[2])), np.matmul(ry(np, np.cos(a[1]), np.sin(a[1])), rx(np, np.cos(a[0]), np.sin(a[0]))))
        if self.xyz is not None:
            p = np.array(self.xyz)
        return R, p


INERTIA = '<inertial><mass value="2.5"/><inertia ixx="1" ixy="0.1" ixz="0" iyy="2" iyz="0" izz="3"/></inertial>'


def document(env, joints, extra_links=(), order=1, inertial=''):
    n = Numbers(env)
    links = []
    for j in joints:
        for l in (j.parent, j.child):
            if l not in links:
                links.append(l)
    links += list(extra_links)
    body = ['<link name="%s">%s</link>' % (l, INERTIA if inertial == 'all' or l in inertial.split() else '') for l in links][::order]
    body += [j.xml(n) for j in joints][::order]
    install(env, n)
    return '<?xml version="1.0"?><robot name="test">%s</robot>' % ''.join(body)


def reference(env, chain, q):
    np = env.np
    R, p = np.eye(3), np.zeros(3)
    k = 0
    for j in chain:
        Ro, po = j.origin(np)
        p = p + np.matmul(R, po)
        R = np.matmul(R, Ro)
        if j.t == 'f':
            continue
        if j.t == 'r':
            R = np.matmul(R, rodrigues(np, j.axis, np.cos(q[k]), np.sin(q[k])))
        else:
            p = p + np.matmul(R, np.array(j.axis)) * q[k]
        k += 1
    return R, p


def joint_values(env, moving):
    return [env.angle('q%d' % i, lo=-2, hi=2) if j.t == 'r' else env.real('q%d' % i, lo=-2, hi=2) for i, j in enumerate(moving)]


def same_motion(env, r, chain, what=''):
    np = env.np
    q = joint_values(env, [j for j in chain if j.t != 'f'])
    T = env.rox.fwdkin(r, np.array(q))
    R, p = reference(env, chain, q)
    env.eq(T.R, R, what + 'rotation')
    env.eq(T.p, p, what + 'position')


def line(env, spec, origins, axes=None, **kw):
    """joints base -> l0 -> l1 ..."""
    out = []
    for i, t in enumerate(spec):
        out.append(J(env, 'j%d' % i, t, 'base' if i == 0 else 'l%d' % (i - 1), 'l%d' % i, origins[i % len(origins)], None if axes is None else axes[i % len(axes)], **kw))
    return out


CHAINS = [(s, o, a) for s, o, a in (
    ('r', ['xr'], None), ('p', ['xr'], None), ('r', ['e'], None), ('p', [''], None), ('rr', ['x', 'r'], None), ('rp', ['xr', 'x'], None), ('pr', ['r', 'xr'], None),
    ('fr', ['xr', 'x'], None), ('rf', ['x', 'xr'], None), ('rf', ['r', 'xr'], None), ('frf', ['xy', 'x', 'xr'], None), ('ffr', ['xy', 'xr', ''], None), ('rff', ['x', 'xy', 'xr'], None),
    ('rfp', ['x', 'xr', 'x'], 'zyx'), ('pfr', ['xy', 'xy', 'xr'], 'xzy'), ('rfrf', ['x', 'xr', 'x', 'xr'], 'xyzy'), ('frfpf', ['xy', 'x', 'xy', 'x', 'xr'], 'zzyyx'),
    ('rrr', ['xy', 'xy', 'xr'], 'zyx'), ('fprf', ['xy', 'x', 'xr', 'xy'], 'xyzx'), ('rprp', ['x', 'xy', 'x', 'xy'], 'ZxyZ'))]


@scenario('C30', over=[dict(spec=s, origins=o, axes=a) for s, o, a in CHAINS],
          thorough_over=[dict(spec=s, origins=o, axes=a) for s, o, a in (('rrrrrr', ['x', 'xy'], 'zyyxyx'), ('frrfprf', ['xy', 'x'], 'zyxzyxz'), ('rr', ['xr'], None), ('rfr', ['xr', 'x'], None),
                                                                        ('fff' + 'r' + 'fff', ['xy'], 'z'), ('rprf', ['xr'], 'xyzx'))],
          budget=100)
def motion(env, spec, origins, axes):
    """A chain of joints in a line: the loaded robot has the pose of the composed description for all joint values."""
    chain = line(env, spec, origins, axes)
    xml = document(env, chain, order=-1 if len(spec) % 2 else 1)
    r = env.mod('urdf').robot_from_xml_string(xml)
    env.require(len(r.joint_type) == sum(c != 'f' for c in spec), 'number of joints')
    same_motion(env, r, chain)


@scenario('C30', over=[dict(spec=s, origins=o, axes=a, how=h) for s, o, a, h in (('rfp', ['xy', 'xr', 'x'], 'zyx', 'file'), ('fr', ['xr', 'x'], None, 'file'), ('rp', ['xy', 'xr'], 'zx', 'names'),
                                                                                 ('rfpf', ['xy', 'xr', 'x', 'xy'], 'zyyx', 'names'), ('frr', ['xr', 'x', 'xy'], 'zyx', 'inertia'), ('rp', ['xr', 'x'], 'zy', 'part'),
                                                                                 ('rfp', ['xy', 'xr', 'x'], 'zyx', 'xacro'), ('fr', ['xr', 'x'], None, 'package'), ('rpf', ['xy', 'x', 'xr'], 'yx', 'xacro package'),
                                                                                 ('rf', ['x', 'xr'], None, 'server'), ('pr', ['xr', 'x'], 'xy', 'server arm'))])
def motion_how(env, spec, origins, axes, how):
    """From a file, a xacro file, a file of a ROS package or the parameter server, with the links named explicitly, and with inertias in the description."""
    chain = line(env, spec, origins, axes)
    xml = document(env, chain, inertial={'inertia': 'all', 'part': 'base l1'}.get(how, ''))
    u = env.mod('urdf')
    if how in ('file', 'xacro', 'package', 'xacro package'):
        d = tempfile.mkdtemp(prefix='urdf')
        f = os.path.join(d, 'robot.urdf')
        old = os.environ.get('ROS_PACKAGE_PATH')
        try:
            if 'xacro' in how:
                # the body in a macro, a number by a property
                xml = xml.replace('<robot name="test">', '<robot name="test" xmlns:xacro="http://ros.org/wiki/xacro"><xacro:property name="one" value="1.0"/><xacro:macro name="body" params="pre">')
                xml = xml.replace('</robot>', '</xacro:macro><xacro:body pre="l"/></robot>').replace('"l0"', '"${pre}0"')
            with open(f, 'w') as h:
                h.write(xml)
            with open(os.path.join(d, 'package.xml'), 'w') as h:
                h.write('<package><name>grt_check</name><version>1.0.0</version><description>d</description><maintainer email="a@b.c">a</maintainer><license>BSD</license></package>')
            os.environ['ROS_PACKAGE_PATH'] = d
            load = u.robot_from_xacro_file if 'xacro' in how else u.robot_from_xml_file
            r = load('robot.urdf', 'grt_check', 'base', chain[-1].child) if 'package' in how else load(f)
        finally:
            if old is None:
                os.environ.pop('ROS_PACKAGE_PATH', None)
            else:
                os.environ['ROS_PACKAGE_PATH'] = old
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            os.rmdir(d)
    elif how.startswith('server'):
        PARAMS.clear()
        PARAMS['other'] = '<robot name="x"><link name="a"/></robot>'
        PARAMS[how[7:] or 'robot_description'] = xml
        r = u.robot_from_parameter_server(how[7:], 'base', chain[-1].child) if how[7:] else u.robot_from_parameter_server()
    elif how == 'names':
        r = u.robot_from_xml_string(xml, 'base', chain[-1].child)
    else:
        r = u.robot_from_xml_string(xml)
    same_motion(env, r, chain)


@scenario('C30', over=[dict(t=t) for t in 'rp'])
def axis_default(env, t):
    """A joint without an axis element turns about (slides along) the x axis of its frame."""
    chain = [J(env, 'j0', t, 'base', 'l0', 'xr', axis_tag=False)]
    xml = document(env, chain)
    r = env.mod('urdf').robot_from_xml_string(xml)
    same_motion(env, r, chain)


@scenario('C30', over=[dict(a=a, b=b) for a, b in (('rf', 'fr'), ('pr', 'r'))])
def segments(env, a, b):
    """The chain from the root to a middle link and on to the tip, loaded separately, have the poses of their parts."""
    chain = line(env, a + b, ['xy', 'xr', 'x'], 'zyxz')
    xml = document(env, chain)
    u = env.mod('urdf')
    n = len(a)
    mid = chain[n - 1].child
    part = env.choice('part', [0, 1])
    if part == 0:
        r = u.robot_from_xml_string(xml, tip_link=mid)
        same_motion(env, r, chain[:n], 'first part: ')
    else:
        r = u.robot_from_xml_string(xml, root_link=mid)
        same_motion(env, r, chain[n:], 'second part: ')


# ---------------------------------------------------------------- C31
def attributes(env, r, chain, root, tip, limits=True):
    np = env.np
    moving = [j for j in chain if j.t != 'f']
    env.require(r.root_link_name == root, 'root link')
    env.require(r.tip_link_name == tip, 'tip link')
    env.require(list(r.joint_names) == [j.name for j in moving], 'joint names')
    env.require([int(t) for t in r.joint_type] == [0 if j.t == 'r' else 1 for j in moving], 'joint types')
    env.require(np.shape(r.H) == (3, len(moving)) and np.shape(r.P) == (3, len(moving) + 1), 'sizes')
    if limits:
        for i, (at, w) in enumerate((('joint_lower_limit', 'lower limits'), ('joint_upper_limit', 'upper limits'), ('joint_vel_limit', 'velocity limits'))):
            env.require(getattr(r, at) is not None, w + ' given')
            env.eq(getattr(r, at), np.array([j.limit[i] for j in moving]), w)
        env.eq(np.array(r.joint_effort_limit), np.array([j.limit[3] for j in moving]), 'effort limits')


# trees: name, type, parent, child
TREES = {
    'arm with fixed camera': [('a', 'r', 'base', 'A'), ('b', 'p', 'A', 'B'), ('t', 'f', 'B', 'tool'), ('cam', 'f', 'base', 'camera')],
    'two arms': [('a', 'r', 'base', 'A'), ('b', 'p', 'A', 'B'), ('c', 'p', 'base', 'C'), ('d', 'r', 'C', 'D'), ('e', 'r', 'D', 'E')],
    'torso': [('w', 'f', 'world', 'base'), ('t', 'r', 'base', 'torso'), ('a', 'r', 'torso', 'A'), ('b', 'p', 'A', 'B'), ('c', 'r', 'torso', 'C'), ('x', 'f', 'C', 'D')],
    'gripper': [('a', 'r', 'base', 'A'), ('f', 'f', 'A', 'flange'), ('g', 'p', 'flange', 'finger1'), ('h', 'p', 'flange', 'finger2')],
    'loose object': [('a', 'r', 'base', 'A'), ('b', 'r', 'A', 'B'), ('o', 'l', 'base', 'object')],
    'objects on stands': [('s', 'f', 'base', 'stand'), ('a', 'r', 'base', 'A'), ('o', 'l', 'stand', 'object'), ('b', 'p', 'A', 'B'), ('u', 'l', 'base', 'tray'), ('v', 'f', 'tray', 'rim')],
    'carried object': [('a', 'r', 'base', 'A'), ('b', 'p', 'A', 'B'), ('o', 'l', 'B', 'object'), ('c', 'r', 'base', 'C')],
    'posts': [('f', 'f', 'base', 'post'), ('g', 'f', 'post', 'camera'), ('a', 'p', 'base', 'A'), ('h', 'f', 'A', 'B'), ('i', 'f', 'B', 'C')],
    'wheel': [('a', 'r', 'base', 'A'), ('b', 'r', 'A', 'B'), ('w', 'c', 'base', 'wheel')],
}
SELECT = [('arm with fixed camera', None, None, 'abt', 'base', 'tool'), ('arm with fixed camera', None, 'B', 'ab', 'base', 'B'), ('arm with fixed camera', 'A', None, 'bt', 'A', 'tool'),
          ('arm with fixed camera', 'base', None, 'abt', 'base', 'tool'), ('arm with fixed camera', None, 'A', 'a', 'base', 'A'), ('arm with fixed camera', 'A', 'B', 'b', 'A', 'B'),
          ('two arms', None, 'B', 'ab', 'base', 'B'), ('two arms', None, 'E', 'cde', 'base', 'E'), ('two arms', 'C', None, 'de', 'C', 'E'), ('two arms', None, 'D', 'cd', 'base', 'D'),
          ('two arms', 'C', 'D', 'd', 'C', 'D'), ('two arms', None, None, None, 0, 0), ('two arms', 'base', None, None, 0, 0), ('two arms', 'A', 'E', None, 0, 0),
          ('torso', None, 'B', 'wtab', 'world', 'B'), ('torso', None, 'D', 'wtcx', 'world', 'D'), ('torso', 'base', 'C', 'tc', 'base', 'C'), ('torso', 'torso', 'B', 'ab', 'torso', 'B'),
          ('torso', None, None, None, 0, 0), ('torso', 'torso', None, None, 0, 0), ('torso', 'A', None, 'b', 'A', 'B'), ('torso', 'nolink', 'B', None, 0, 0),
          ('torso', None, 'nolink', None, 0, 0), ('torso', 'B', 'base', None, 0, 0),
          ('gripper', None, None, None, 0, 0), ('gripper', None, 'flange', 'af', 'base', 'flange'), ('gripper', None, 'finger2', 'afh', 'base', 'finger2'),
          ('gripper', 'flange', 'finger1', 'g', 'flange', 'finger1'), ('gripper', 'flange', None, None, 0, 0),
          ('loose object', None, None, 'ab', 'base', 'B'), ('loose object', 'base', 'B', 'ab', 'base', 'B'), ('loose object', None, 'object', None, 0, 0),
          ('objects on stands', None, None, 'ab', 'base', 'B'), ('objects on stands', None, 'object', None, 0, 0), ('objects on stands', None, 'rim', None, 0, 0),
          ('carried object', None, None, 'c', 'base', 'C'), ('carried object', None, 'B', 'ab', 'base', 'B'), ('carried object', None, 'object', None, 0, 0),
          ('posts', None, None, 'ahi', 'base', 'C'), ('posts', None, 'A', 'a', 'base', 'A'), ('posts', 'A', None, None, 0, 0),
          ('wheel', None, 'B', 'ab', 'base', 'B'), ('wheel', None, 'wheel', None, 0, 0), ('wheel', None, None, None, 0, 0)]


@scenario('C31', over=[dict(tree=t, root=a, tip=b, want=w, wroot=c, wtip=d, order=o) for t, a, b, w, c, d in SELECT for o in (1, -1)], budget=60)
def selection(env, tree, root, tip, want, wroot, wtip, order):
    """The chain from the requested (or only) root to the requested (or only) tip, with its own limits, types and names; otherwise a refusal."""
    joints = [J(env, n, t, p, c, 'xy', 'zyx'[i % 3]) for i, (n, t, p, c) in enumerate(TREES[tree])]
    xml = document(env, joints, order=order)
    u = env.mod('urdf')
    kw = {}
    if root is not None:
        kw['root_link'] = root
    if tip is not None:
        kw['tip_link'] = tip
    if want is None:
        try:
            u.robot_from_xml_string(xml, **kw)
        except Exception:
            env.require(True, 'refused')
        else:
            env.fail('an ambiguous, unknown or unsupported chain was accepted')
        return
    r = u.robot_from_xml_string(xml, **kw)
    by = {j.name: j for j in joints}
    chain = [by[c] for c in want]
    attributes(env, r, chain, wroot, wtip)
    same_motion(env, r, chain)


@scenario('C31', over=[dict(spec=s) for s in ('r', 'rp', 'rfr', 'prr', 'frpfr')], thorough_over=[dict(spec='rrrrrr'), dict(spec='rprprpr')])
def limits(env, spec):
    """Limits, velocity and effort limits of every joint in order, without any order among them being assumed."""
    chain = line(env, spec, ['x'], 'zyx')
    xml = document(env, chain)
    r = env.mod('urdf').robot_from_xml_string(xml)
    attributes(env, r, chain, 'base', chain[-1].child)


@scenario('C31', over=[dict(spec=s) for s in ('rr', 'rpr')])
def limits_missing(env, spec):
    """When the limits of some joint are missing no joint is limited; names and types remain."""
    k = env.choice('which', list(range(len(spec))))
    chain = line(env, spec, ['x'], 'zyx')
    chain[k].limit = None
    xml = document(env, chain)
    r = env.mod('urdf').robot_from_xml_string(xml)
    attributes(env, r, chain, 'base', chain[-1].child, limits=False)
    env.require(r.joint_lower_limit is None and r.joint_upper_limit is None, 'no limits')
    env.require(r.joint_vel_limit is None, 'no velocity limits')
    np = env.np
    q = [env.angle('q%d' % i, lo=-20, hi=20) if t == 'r' else env.real('q%d' % i, lo=-50, hi=50) for i, t in enumerate(spec)]
    T = env.rox.fwdkin(r, np.array(q))
    R, p = reference(env, chain, q)
    env.eq(T.R, R, 'rotation')
    env.eq(T.p, p, 'position')


@scenario('C31', over=[dict(t=t, at=a) for t in 'cln' for a in (0, 1, 2)])
def unsupported(env, t, at):
    """A joint of another kind within the chain is refused."""
    spec = list('rpr')
    spec[at] = t
    chain = line(env, spec, ['x'], 'zyx')
    xml = document(env, chain)
    kw = env.choice('kw', [{}, {'tip_link': 'l2'}])
    try:
        env.mod('urdf').robot_from_xml_string(xml, **kw)
    except Exception:
        env.require(True, 'refused')
    else:
        env.fail('a joint that is neither revolute, prismatic nor fixed was accepted')


# ---------------------------------------------------------------- C39
class Inertial:
    """The inertial element of a link: mass, place of the centre of mass, inertia matrix about it in axes of its own."""

    def __init__(self, env, name, origin, matrix=True):
        self.m = env.real('m' + name, lo=1e-5, hi=9)
        self.xyz = env.vec('c' + name, lo=-1, hi=1) if 'x' in origin else None
        self.rpy = [env.angle('%si%s' % (c, name), lo=-3.1, hi=3.1) for c in 'rpy'] if 'r' in origin else None
        self.tag = self.xyz is not None or self.rpy is not None or 'e' in origin
        self.I = [env.real('I%d%s' % (i, name), lo=-1, hi=1) for i in range(6)] if matrix else None

    def xml(self, n):
        s = '<inertial>'
        if self.tag:
            s += '<origin%s%s/>' % (' xyz="%s"' % n.vec(self.xyz) if self.xyz is not None else '', ' rpy="%s"' % n.vec(self.rpy) if self.rpy is not None else '')
        s += '<mass value="%s"/>' % n(self.m)
        if self.I is not None:
            s += '<inertia %s/>' % ' '.join('%s="%s"' % (k, n(x)) for k, x in zip(('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz'), self.I))
        return s + '</inertial>'

    def matrix(self, np):
        """The 6 x 6 inertia about the origin of the link, angular part first."""
        I, R, c = np.zeros((3, 3)), np.eye(3), [0, 0, 0]
        if self.I is not None:
            a, b, d, e, f, g = self.I
            I = np.array([[a, b, d], [b, e, f], [d, f, g]])
        if self.rpy is not None:
            a = self.rpy
            R = np.matmul(rz(np, np.cos(a[2]), np.sin(a[2])), np.matmul(ry(np, np.cos(a[1]), np.sin(a[1])), rx(np, np.cos(a[0]), np.sin(a[0]))))
        if self.xyz is not None:
            c = self.xyz
        X = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
        m = self.m
        return np.block([[np.matmul(R, np.matmul(I, R.T)) - m * np.matmul(X, X), m * X], [-m * X, m * np.eye(3)]])


def bodies(env, spec, origins, forms, axes='zyxzyx'):
    """A chain of joints in a line; forms gives per link the form of its inertial element, '-' for none."""
    chain = line(env, spec, origins, axes)
    links = ['base'] + [j.child for j in chain]
    mass = {l: Inertial(env, l, f.replace('n', ''), 'n' not in f) for l, f in zip(links, forms) if f != '-'}
    n = Numbers(env)
    install(env, n)
    order = env.choice('order', [1, -1])
    body = ['<link name="%s">%s</link>' % (l, mass[l].xml(n) if l in mass else '') for l in links][::order] + [j.xml(n) for j in chain][::order]
    return chain, links, mass, '<?xml version="1.0"?><robot name="test">%s</robot>' % ''.join(body)


MASSES = [('r', ['x'], ['x', 'xr']), ('r', ['x'], ['xr', 'e']), ('p', [''], ['', 'x']), ('p', ['x'], ['r', 'xn']), ('rr', ['x'], ['x', 'r', 'xr']), ('rp', ['x'], ['xr', '', 'xn']),
          # welded links in the same place count together
          ('fr', ['', 'x'], ['x', 'xr', 'x']), ('rf', ['x', ''], ['x', 'xr', 'r']), ('rfp', ['x', '', 'x'], ['', 'x', 'xr', 'x']), ('frff', ['', 'x', '', ''], ['x', '', 'xr', 'x', '']),
          # ... and those without a mass not at all
          ('rf', ['x', ''], ['xr', 'x', '-']), ('rf', ['x', 'x'], ['xr', 'x', '-']), ('fr', ['', 'x'], ['-', 'xr', 'x']), ('fr', ['', 'x'], ['xr', '-', 'x']), ('rf', ['x', ''], ['xr', '-', 'x']),
          ('rff', ['x', '', 'x'], ['r', 'x', '-', '-']), ('rfpf', ['x', '', 'x', 'x'], ['x', '-', 'xr', 'x', '-'])]


@scenario('C39', over=[dict(spec=s, origins=o, forms=f) for s, o, f in MASSES],
          thorough_over=[dict(spec=s, origins=o, forms=f) for s, o, f in (('rrrrrr', ['x'], ['xr', 'x', 'r', '', 'xr', 'xn', 'xr']), ('prfrffp', ['x', 'x', '', 'x', '', '', 'x'], ['x', 'r', '', '-', 'xr', 'x', '-', 'xr']),
                                                                          ('rrrf', ['x'], ['x', 'xr', 'x', 'xr', '-']))], budget=60)
def inertias(env, spec, origins, forms):
    """Every rigid body of the chain has the inertia of its links."""
    np = env.np
    chain, links, mass, xml = bodies(env, spec, origins, forms)
    r = env.mod('urdf').robot_from_xml_string(xml)
    want, cur = [], None
    for i, l in enumerate(links):
        if i and chain[i - 1].t != 'f':
            want.append(cur)
            cur = None
        if l in mass:
            cur = mass[l].matrix(np) if cur is None else cur + mass[l].matrix(np)
    want.append(cur)
    env.require(r.M is not None and len(r.M) == len(want), 'the robot has an inertia for each of its bodies')
    for i, (a, b) in enumerate(zip(r.M, want)):
        env.require(np.shape(a) == (6, 6), 'size')
        env.eq(np.array(a), b, 'inertia of body %d' % i)


@scenario('C39', over=[dict(spec=s, origins=o, forms=f) for s, o, f in (('r', ['x'], ['xr', '-']), ('r', ['x'], ['-', 'x']), ('rp', ['x'], ['x', '-', 'x']), ('rf', ['x', ''], ['x', '-', '-']), ('rr', ['x'], ['-', '-', '-']),
                                                                      ('rfp', ['x', '', 'x'], ['x', '-', '-', 'xr']))])
def inertias_unknown(env, spec, origins, forms):
    """A robot with a body of unknown mass has no inertias, rather than wrong ones."""
    chain, links, mass, xml = bodies(env, spec, origins, forms)
    r = env.mod('urdf').robot_from_xml_string(xml)
    env.require(r.M is None, 'inertias are given although a body has no mass')
    env.require(len(r.joint_type) == sum(c != 'f' for c in spec), 'number of joints')
