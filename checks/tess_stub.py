"""Stand-ins of the Tesseract Python classes for the symbolic run (the concrete runs use the installed library)."""
import types
import yaml as _yaml
from symx import npx, core
from symx.arr import toarr, SymArray

np = npx.NP
Sym = core.Sym


def vec3(x):
    if not isinstance(x, SymArray):
        raise TypeError('The given input is not known as a NumPy array or matrix.')
    if x.shape not in ((3,), (3, 1)):
        raise ValueError('Row dimension mismatch between NumPy and Eigen objects')
    return toarr([e for e in x.reshape(-1)])


def mat(x, n):
    if not isinstance(x, SymArray):
        raise TypeError('The given input is not known as a NumPy array or matrix.')
    if x.shape != (n, n):
        raise ValueError('Row dimension mismatch between NumPy and Eigen objects (2D).')
    return np.array(x)


def vecn(x):
    if not isinstance(x, SymArray):
        raise TypeError('The given input is not known as a NumPy array or matrix.')
    if not (x.ndim == 1 or (x.ndim == 2 and x.shape[1] == 1)):
        raise ValueError('Column dimension mismatch')
    return [e for e in x.reshape(-1)]


def num(x):
    if isinstance(x, (list, tuple)) or isinstance(x, SymArray) and x.ndim:
        raise TypeError('Wrong number or type of arguments for overloaded function')
    return Sym.of(x)


def name(x):
    if not isinstance(x, str):
        raise TypeError('Wrong number or type of arguments for overloaded function')
    return x


def rodrigues(k, c, s):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return c * np.eye(3) + s * K + (1 - c) * np.outer(k, k)


def _lin(R, p):
    o = Isometry3d()
    o._R, o._p = R, p
    return o


class _Mul:
    def __mul__(self, o):
        if isinstance(self, Translation3d) and isinstance(o, Translation3d):
            return Translation3d(self._p + o._p)
        if not isinstance(o, _Mul):
            raise TypeError('unsupported operand type(s) for *')
        if isinstance(self, (AngleAxisd, Quaterniond)) and isinstance(o, (AngleAxisd, Quaterniond)):
            return Quaterniond._of(np.matmul(self._R, o._R))
        return _lin(np.matmul(self._R, o._R), self._p + np.matmul(self._R, o._p))


class Translation3d(_Mul):
    def __init__(self, *a):
        if len(a) == 3:
            a = (np.array([num(x) for x in a]),)
        self._p = vec3(a[0]) if a else np.zeros(3)
        self._R = np.eye(3)

    def x(self):
        return self._p[0]

    def y(self):
        return self._p[1]

    def z(self):
        return self._p[2]


class _Rot(_Mul):
    def toRotationMatrix(self):
        return np.array(self._R)

    def inverse(self):
        return type(self)._of(self._R.T)

    @classmethod
    def _of(cls, R):
        o = cls.__new__(cls)
        o._R, o._p = R, np.zeros(3)
        return o


class AngleAxisd(_Rot):
    def __init__(self, *a):
        self._p = np.zeros(3)
        if len(a) == 2:
            k = vec3(a[1])
            self._R = rodrigues(k, np.cos(num(a[0])), np.sin(num(a[0])))
        elif isinstance(a[0], _Rot):
            self._R = np.array(a[0]._R)
        else:
            self._R = mat(a[0], 3)


class Quaterniond(_Rot):
    def __init__(self, *a):
        self._p = np.zeros(3)
        if len(a) == 4:
            w, x, y, z = [num(v) for v in a]
            self._R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                                [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                                [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
        elif isinstance(a[0], _Rot):
            self._R = np.array(a[0]._R)
        else:
            self._R = mat(a[0], 3)


class Isometry3d(_Mul):
    def __init__(self, *a):
        if a:
            m = mat(a[0], 4)
            self._R, self._p = m[0:3, 0:3], m[0:3, 3]
        else:
            # uninitialised memory in the library
            self._R, self._p = np.full((3, 3), np.nan), np.full((3,), np.nan)

    @staticmethod
    def Identity():
        return _lin(np.eye(3), np.zeros(3))

    def setIdentity(self):
        self._R, self._p = np.eye(3), np.zeros(3)

    def matrix(self):
        m = np.eye(4)
        m[0:3, 0:3] = self._R
        m[0:3, 3] = self._p
        return m

    def setMatrix(self, m):
        m = mat(m, 4)
        self._R, self._p = m[0:3, 0:3], m[0:3, 3]

    def linear(self):
        return np.array(self._R)
    rotation = linear

    def setLinear(self, R):
        self._R = mat(R, 3)

    def translation(self):
        return np.reshape(np.array(self._p), (3, 1))

    def setTranslation(self, p):
        self._p = vec3(p)

    def translate(self, p):
        self._p = self._p + np.matmul(self._R, vec3(p))

    def pretranslate(self, p):
        self._p = self._p + vec3(p)

    def rotate(self, R):
        self._R = np.matmul(self._R, R._R if isinstance(R, _Rot) else mat(R, 3))

    def prerotate(self, R):
        R = R._R if isinstance(R, _Rot) else mat(R, 3)
        self._R, self._p = np.matmul(R, self._R), np.matmul(R, self._p)

    def inverse(self):
        return _lin(self._R.T, -np.matmul(self._R.T, self._p))


JointType_REVOLUTE, JointType_PRISMATIC, JointType_FIXED, JointType_CONTINUOUS = 1, 3, 6, 2


class Strict:
    _attrs = {}

    def __setattr__(self, k, v):
        if k.startswith('_'):
            return object.__setattr__(self, k, v)
        if k not in self._attrs:
            raise AttributeError('You cannot add instance attributes to %s' % self)
        object.__setattr__(self, k, self._attrs[k](v))


class Link:
    def __init__(self, n):
        self._name = name(n)

    def getName(self):
        return self._name


def iso(x):
    if not isinstance(x, Isometry3d):
        raise TypeError('in method, argument of type Eigen::Isometry3d')
    return x


class JointLimits(Strict):
    _attrs = dict(lower=num, upper=num, effort=num, velocity=num, acceleration=num)

    def __init__(self, l=0., u=0., e=0., v=0., a=0.):
        self.lower, self.upper, self.effort, self.velocity, self.acceleration = l, u, e, v, a


def limits(x):
    if x is not None and not isinstance(x, JointLimits):
        raise TypeError('argument of type JointLimits')
    return x


class Joint(Strict):
    _attrs = dict(type=lambda x: x, axis=lambda v: np.reshape(vec3(v), (3, 1)), parent_link_name=name, child_link_name=name,
                  parent_to_joint_origin_transform=iso, limits=limits)

    def __init__(self, n):
        self._name = name(n)
        self.type = 0
        self.axis = np.array([1., 0, 0])
        self.parent_link_name = self.child_link_name = ''
        self.parent_to_joint_origin_transform = Isometry3d.Identity()
        self.limits = None

    def getName(self):
        return self._name

    def motion(self, q):
        """Child in parent frame."""
        T = self.parent_to_joint_origin_transform
        if self.type == JointType_FIXED:
            return T
        h = self.axis.flatten()
        if self.type in (JointType_REVOLUTE, JointType_CONTINUOUS):
            return T * _lin(rodrigues(h, np.cos(q), np.sin(q)), np.zeros(3))
        if self.type == JointType_PRISMATIC:
            return T * _lin(np.eye(3), h * q)
        raise core.Unsupported('joint type')


class SceneGraph:
    def __init__(self, n=''):
        self._links, self._joints = {}, {}

    def addLink(self, l, j=None):
        if not isinstance(l, Link) or (j is not None and not isinstance(j, Joint)):
            raise TypeError('argument type')
        if l.getName() in self._links:
            return False
        if j is not None and (j.getName() in self._joints or j.child_link_name != l.getName() or j.parent_link_name not in self._links):
            return False
        self._links[l.getName()] = l
        if j is not None:
            self._joints[j.getName()] = j
        return True

    def addJoint(self, j):
        if j.getName() in self._joints or j.parent_link_name not in self._links or j.child_link_name not in self._links:
            return False
        self._joints[j.getName()] = j
        return True

    def getLinks(self):
        return list(self._links.values())

    def getJoints(self):
        return list(self._joints.values())

    def getLink(self, n):
        return self._links.get(n)

    def getJoint(self, n):
        return self._joints.get(n)

    def getRoot(self):
        c = {j.child_link_name for j in self._joints.values()}
        return [l for l in self._links if l not in c][0]


class Commands(list):
    pass


class AddLinkCommand:
    def __init__(self, l, j=None, replace_allowed=False):
        self.l, self.j = l, j

    def apply(self, env):
        return env._sg.addLink(self.l, self.j) if self.j else env._sg.addLink(self.l)


class AddSceneGraphCommand:
    def __init__(self, sg, *a):
        self.sg = sg
        self.joint = a[0] if a and isinstance(a[0], Joint) else None
        self.prefix = a[-1] if a and isinstance(a[-1], str) else ''

    def apply(self, env):
        g = env._sg
        pre = self.prefix
        if self.joint is None and g._links:
            raise core.Unsupported('scene graph without a joint in a non-empty environment')
        for l in self.sg.getLinks():
            if pre + l.getName() in g._links:
                return False
            g._links[pre + l.getName()] = Link(pre + l.getName())
        for j in self.sg.getJoints():
            if pre + j.getName() in g._joints:
                return False
            k = Joint(pre + j.getName())
            k.type, k.axis, k.parent_to_joint_origin_transform, k.limits = j.type, j.axis, j.parent_to_joint_origin_transform, j.limits
            k.parent_link_name, k.child_link_name = pre + j.parent_link_name, pre + j.child_link_name
            g._joints[k.getName()] = k
        return True if self.joint is None else g.addJoint(self.joint)


class KinematicsInformation:
    def __init__(self):
        self.kinematics_plugin_info = None
        self.chains = {}

    def addChainGroup(self, n, c):
        self.chains[name(n)] = c


class AddKinematicsInformationCommand:
    def __init__(self, k):
        self.k = k

    def apply(self, env):
        env._info.chains.update(self.k.chains)
        if self.k.kinematics_plugin_info is not None:
            env._plugins.append(self.k.kinematics_plugin_info)
        return True


class VectorPairString(list):
    pass


class Limits:
    pass


class KinematicGroup:
    def __init__(self, env, n):
        self.env, self.name = env, n
        g = env._sg
        chain = env._info.chains[n]
        (self.base, self.tip), = list(chain)
        if self.base not in g._links or self.tip not in g._links:
            raise RuntimeError('unknown link in chain')
        self.joints = []
        by = {j.child_link_name: j for j in g.getJoints()}
        l = self.tip
        while l != self.base:
            self.joints.insert(0, by[l])
            l = by[l].parent_link_name
        self.moving = [j for j in self.joints if j.type != JointType_FIXED]

    def getJointNames(self):
        return [j.getName() for j in self.moving]

    def getBaseLinkName(self):
        return self.env._sg.getRoot()

    def getAllPossibleTipLinkNames(self):
        return [self.tip]

    def getLinkNames(self):
        return list(self.env._sg._links)

    def numJoints(self):
        return len(self.moving)

    def getRedundancyCapableJointIndices(self):
        return [i for i, j in enumerate(self.moving) if j.type == JointType_REVOLUTE]

    def getLimits(self):
        o = Limits()
        o.joint_limits = np.array([[j.limits.lower, j.limits.upper] for j in self.moving])
        o.velocity_limits = np.array([j.limits.velocity for j in self.moving])
        o.acceleration_limits = np.array([j.limits.acceleration for j in self.moving])
        return o

    def calcFwdKin(self, q):
        q = vecn(q)
        if len(q) != len(self.moving):
            raise RuntimeError('wrong number of joints')
        val = {j.getName(): x for j, x in zip(self.moving, q)}
        g = self.env._sg
        fr = {g.getRoot(): Isometry3d.Identity()}
        todo = g.getJoints()
        while todo:
            rest = []
            for j in todo:
                if j.parent_link_name in fr:
                    fr[j.child_link_name] = fr[j.parent_link_name] * j.motion(val.get(j.getName(), Sym.of(0)))
                else:
                    rest.append(j)
            if len(rest) == len(todo):
                raise RuntimeError('not a tree')
            todo = rest
        return fr

    def calcJacobian(self, q, base, link):
        fr = self.calcFwdKin(q)
        B, X = fr[base], fr[link]
        v, w = [], []
        onpath = set()
        l = link
        by = {j.child_link_name: j for j in self.env._sg.getJoints()}
        while l in by:
            onpath.add(by[l].getName())
            l = by[l].parent_link_name
        for j in self.moving:
            if j.getName() not in onpath:
                v.append(np.zeros(3))
                w.append(np.zeros(3))
                continue
            F = fr[j.child_link_name]
            h = np.matmul(F._R, j.axis.flatten())
            if j.type == JointType_PRISMATIC:
                v.append(h)
                w.append(np.zeros(3))
            else:
                d = X._p - F._p
                v.append(np.array([h[1] * d[2] - h[2] * d[1], h[2] * d[0] - h[0] * d[2], h[0] * d[1] - h[1] * d[0]]))
                w.append(h)
        Rt = B._R.T
        return np.array([[np.matmul(Rt, x)[i] for x in v] for i in range(3)] + [[np.matmul(Rt, x)[i] for x in w] for i in range(3)])


class Environment:
    def __init__(self):
        self._sg = SceneGraph()
        self._info = KinematicsInformation()
        self._plugins = []

    def init(self, cmds):
        return self.applyCommands(cmds)

    def applyCommands(self, cmds):
        return all(c.apply(self) for c in cmds)

    def getKinematicGroup(self, n):
        return KinematicGroup(self, n)


class KinGroupIKInput(Strict):
    _attrs = dict(pose=iso, tip_link_name=name, working_frame=name)

    def __init__(self, pose=None, frame='', tip=''):
        if pose is not None:
            self.pose = pose
        self.working_frame, self.tip_link_name = frame, tip


class KinGroupIKInputs(list):
    pass


# ---------------------------------------------------------------- text with symbolic numbers
class Yaml:
    """The installed YAML library; symbolic numbers are placeholders in the text."""

    def __init__(self):
        self.table = {}
        m = types.ModuleType('yaml')
        m.__dict__.update(vars(_yaml))
        for f in ('safe_dump', 'dump'):
            setattr(m, f, self._dump(f))
        for f in ('safe_load', 'load', 'full_load', 'unsafe_load'):
            setattr(m, f, self._load(f))
        self.mod = m

    def enc(self, x):
        if isinstance(x, Sym):
            if x.isconst():
                return float(x.cval())
            k = 1000003.25 + 0.5 * len(self.table)
            self.table[k] = x
            return k
        if isinstance(x, dict):
            return {self.enc(k): self.enc(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)) and not isinstance(x, str):
            return type(x)(self.enc(v) for v in x)
        return x

    def dec(self, x):
        if isinstance(x, float):
            return self.table.get(x, x)
        if isinstance(x, dict):
            return {k: self.dec(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.dec(v) for v in x]
        return x

    def _dump(self, f):
        g = getattr(_yaml, f)
        return lambda data, *a, **k: g(self.enc(data), *a, **k)

    def _load(self, f):
        g = getattr(_yaml, f)
        return lambda *a, **k: self.dec(g(*a, **k))


def install(env):
    """Called before the first use of the library in a harness."""
    if not env.symbolic:
        return None
    y = Yaml()

    def mod(n, **k):
        m = types.ModuleType('tesseract_robotics.' + n)
        m.__dict__.update(k)
        return m

    class PluginInfo:
        def __init__(self, s):
            self.data = y.dec(_yaml.safe_load(s))

    red = []

    def getRedundantSolutions(theta, lim, idx):
        r = [np.reshape(np.array([env.real('red%d_%d' % (k, i)) for i in range(len(vecn(theta)))]), (-1, 1)) for k in range(2)]
        red.append((theta, lim, idx, r))
        return r
    subs = dict(
        tesseract_common=mod('tesseract_common', Translation3d=Translation3d, AngleAxisd=AngleAxisd, Isometry3d=Isometry3d, Quaterniond=Quaterniond,
                             VectorPairString=VectorPairString, FilesystemPath=str, ManipulatorInfo=object, KinematicsPluginInfo=PluginInfo, PluginInfoContainer=object),
        tesseract_environment=mod('tesseract_environment', Environment=Environment, Commands=Commands, AddLinkCommand=AddLinkCommand,
                                  AddKinematicsInformationCommand=AddKinematicsInformationCommand, AddSceneGraphCommand=AddSceneGraphCommand),
        tesseract_scene_graph=mod('tesseract_scene_graph', Link=Link, Joint=Joint, JointLimits=JointLimits, JointType_FIXED=JointType_FIXED,
                                  JointType_REVOLUTE=JointType_REVOLUTE, JointType_PRISMATIC=JointType_PRISMATIC, JointType_CONTINUOUS=JointType_CONTINUOUS,
                                  SceneGraph=SceneGraph),
        tesseract_kinematics=mod('tesseract_kinematics', KinGroupIKInput=KinGroupIKInput, KinGroupIKInputs=KinGroupIKInputs,
                                 getRedundantSolutions=getRedundantSolutions),
        tesseract_srdf=mod('tesseract_srdf', KinematicsInformation=KinematicsInformation, parseKinematicsPluginConfigString=PluginInfo))
    p = types.ModuleType('tesseract_robotics')
    for k, m in subs.items():
        setattr(p, k, m)
        env.stubs['tesseract_robotics.' + k] = m
    env.stubs['tesseract_robotics'] = p
    env.stubs['yaml'] = y.mod
    y.red = red
    return y
