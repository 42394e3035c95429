"""C32, C33: ROS message conversions and the transform listener, against stand-ins of the ROS message classes and of the tf library."""
import types
from symx.reg import scenario
from symx.env import quatR


# ---------------------------------------------------------------- stand-ins (the field names and order of the ROS message definitions)
class Message:
    _fields = ()

    def __init__(self, *args, **kw):
        if args and kw:
            raise TypeError('positional or keyword arguments, not both')
        if args and len(args) != len(self._fields):
            raise TypeError('Invalid number of arguments, args should be %s args are %s' % ([f for f, _ in self._fields], args))
        for k in kw:
            if k not in [f for f, _ in self._fields]:
                raise AttributeError('%s is not an attribute of %s' % (k, type(self).__name__))
        for i, (f, d) in enumerate(self._fields):
            if args:
                v = args[i]
            else:
                v = kw.get(f)
                if v is None:
                    v = d() if isinstance(d, type) else d
            object.__setattr__(self, f, v)

    def __setattr__(self, k, v):
        if k not in [f for f, _ in self._fields]:
            raise AttributeError(k)
        object.__setattr__(self, k, v)


def msgclass(name, *fields):
    return type(name, (Message,), {'_fields': fields})


Vector3 = msgclass('Vector3', ('x', 0.), ('y', 0.), ('z', 0.))
Point = msgclass('Point', ('x', 0.), ('y', 0.), ('z', 0.))
Quaternion = msgclass('Quaternion', ('x', 0.), ('y', 0.), ('z', 0.), ('w', 0.))
Header = msgclass('Header', ('seq', 0), ('stamp', None), ('frame_id', ''))
Pose = msgclass('Pose', ('position', Point), ('orientation', Quaternion))
Twist = msgclass('Twist', ('linear', Vector3), ('angular', Vector3))
Wrench = msgclass('Wrench', ('force', Vector3), ('torque', Vector3))
Transform = msgclass('Transform', ('translation', Vector3), ('rotation', Quaternion))
TransformStamped = msgclass('TransformStamped', ('header', Header), ('child_frame_id', ''), ('transform', Transform))
PoseStamped = msgclass('PoseStamped', ('header', Header), ('pose', Pose))


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


ALL = dict(Vector3=Vector3, Point=Point, Quaternion=Quaternion, Pose=Pose, Twist=Twist, Wrench=Wrench, Transform=Transform, TransformStamped=TransformStamped,
           PoseStamped=PoseStamped)
_msg = module('geometry_msgs.msg', **ALL)
_std = module('std_msgs.msg', Header=Header)


class Stamp:
    """rospy.Time / rospy.Duration."""

    def __init__(self, secs=0, nsecs=0):
        self.secs, self.nsecs = secs, nsecs


class Time(Stamp):
    pass


class Duration(Stamp):
    pass


class TransformException(Exception):
    pass


class ConnectivityException(TransformException):
    pass


class LookupException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class RawListener:
    """tf.TransformListener that records its calls and answers with what it is told."""
    last = None

    def __init__(self, *a, **k):
        self.made = (a, k)
        self.calls = []
        self.answer = None
        RawListener.last = self

    def _call(self, name, a, k):
        self.calls.append((name, a, k))
        if isinstance(self.answer, BaseException):
            raise self.answer
        return self.answer

    def canTransform(self, target_frame, source_frame, time):
        return self._call('canTransform', (target_frame, source_frame, time), {})

    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._call('canTransformFull', (target_frame, target_time, source_frame, source_time, fixed_frame), {})

    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        return self._call('waitForTransform', (target_frame, source_frame, time, timeout, polling_sleep_duration), {})

    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration=None):
        return self._call('waitForTransformFull', (target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration), {})

    def clear(self):
        return self._call('clear', (), {})

    def lookupTransform(self, target_frame, source_frame, time):
        return self._call('lookupTransform', (target_frame, source_frame, time), {})

    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._call('lookupTransformFull', (target_frame, target_time, source_frame, source_time, fixed_frame), {})


_tf = module('tf', TransformListener=RawListener, LookupException=LookupException, ConnectivityException=ConnectivityException,
             ExtrapolationException=ExtrapolationException, Exception=TransformException)
_tf2 = module('tf2_ros', TransformException=TransformException, ConnectivityException=ConnectivityException, LookupException=LookupException,
              ExtrapolationException=ExtrapolationException)
_rospy = module('rospy', Time=Time, Duration=Duration)


def ros(env):
    env.stubs.update({'geometry_msgs': module('geometry_msgs', msg=_msg), 'geometry_msgs.msg': _msg, 'std_msgs': module('std_msgs', msg=_std), 'std_msgs.msg': _std,
                      'tf': _tf, 'tf2_ros': _tf2, 'rospy': _rospy})


# ---------------------------------------------------------------- C32
def shaped(env, v, kind):
    np = env.np
    n = len(v)
    return {'flat': np.array(v), 'list': list(v), 'column': np.reshape(np.array(v), (n, 1)), 'row': np.reshape(np.array(v), (1, n))}[kind]


def fields(env, m, names, vals, label):
    for f, v in zip(names, vals):
        env.eq(getattr(m, f), v, '%s %s' % (label, f))


SHAPES = ('flat', 'list', 'column', 'row')


@scenario('C32', over=[{'kind': k} for k in SHAPES])
def quaternion(env, kind):
    """Quaternion message: fields, and back."""
    ros(env)
    m = env.mod('ros_msg')
    q = env.vec('q', 4)
    a = shaped(env, q, kind)
    b = m.q2msg(a)
    env.require(type(b) is Quaternion, 'message type')
    fields(env, b, 'wxyz', q, 'quaternion')
    env.eq(m.msg2q(b), env.array(q), 'round trip')
    env.eq(a, shaped(env, q, kind), 'argument unchanged')


@scenario('C32', budget=60)
def rotation(env):
    """Rotation matrix through the quaternion message and back."""
    np = env.np
    ros(env)
    m = env.mod('ros_msg')
    q = env.unitquat('q')
    R = quatR(np, q)
    b = Quaternion(q[1], q[2], q[3], q[0])
    env.eq(m.msg2R(b), R, 'matrix of a message')
    c = m.R2msg(R)
    env.require(type(c) is Quaternion, 'message type')
    env.eq(quatR(np, [c.w, c.x, c.y, c.z]), R, 'rotation in the message')
    env.eq(m.msg2R(c), R, 'round trip')
    fields(env, b, 'wxyz', q, 'message unchanged')


@scenario('C32', over=[{'kind': k, 'what': w} for k in SHAPES for w in ('vector', 'point')])
def vector(env, kind, what):
    """Vector3 and Point messages: fields, and back."""
    ros(env)
    m = env.mod('ros_msg')
    p = env.vec('p')
    a = shaped(env, p, kind)
    to, back, cls = (m.p2msg, m.msg2p, Vector3) if what == 'vector' else (m.p2point_msg, m.point_msg2p, Point)
    b = to(a)
    env.require(type(b) is cls, 'message type')
    fields(env, b, 'xyz', p, what)
    env.eq(back(b), env.array(p), 'round trip')


@scenario('C32', over=[{'kind': k, 'what': w} for k in SHAPES for w in ('twist', 'wrench')])
def screw(env, kind, what):
    """Twist and Wrench messages."""
    ros(env)
    m = env.mod('ros_msg')
    w = env.vec('w', 6)
    a = shaped(env, w, kind)
    to, back, cls, ang, lin = (m.twist2msg, m.msg2twist, Twist, 'angular', 'linear') if what == 'twist' else (m.wrench2msg, m.msg2wrench, Wrench, 'torque', 'force')
    b = to(a)
    env.require(type(b) is cls and type(getattr(b, ang)) is Vector3 and type(getattr(b, lin)) is Vector3, 'message type')
    fields(env, getattr(b, ang), 'xyz', w[0:3], ang)
    fields(env, getattr(b, lin), 'xyz', w[3:6], lin)
    env.eq(back(b), env.array(w), 'round trip')


NAMES = [('world', 'tool'), ('world', None), (None, 'tool'), (None, None)]
KINDS = {'transform': (Transform, 'transform2msg', None, 'translation', 'rotation', Vector3), 'transform_stamped': (TransformStamped, 'transform2transform_stamped_msg', 'transform',
         'translation', 'rotation', Vector3), 'pose': (Pose, 'transform2pose_msg', None, 'position', 'orientation', Point),
         'pose_stamped': (PoseStamped, 'transform2pose_stamped_msg', 'pose', 'position', 'orientation', Point)}


@scenario('C32', over=[{'kind': k} for k in KINDS], budget=60)
def to_message(env, kind):
    """A transform to a message, its fields, and back."""
    np = env.np
    ros(env)
    m = env.mod('ros_msg')
    cls, fn, inner, pf, rf, pc = KINDS[kind]
    a, b = env.choice('names', NAMES)
    R, p = env.frame('R'), env.vec('p')
    T = env.rox.Transform(R, p, a, b)
    msg = getattr(m, fn)(T)
    env.require(type(msg) is cls, 'message type')
    body = getattr(msg, inner) if inner else msg
    x, o = getattr(body, pf), getattr(body, rf)
    env.require(type(x) is pc and type(o) is Quaternion, 'types of the parts')
    fields(env, x, 'xyz', p, pf)
    env.eq(quatR(np, [o.w, o.x, o.y, o.z]), R, 'rotation')
    if inner:
        env.require(msg.header.frame_id == (a or ''), 'frame of the header')
    if kind == 'transform_stamped':
        env.require(msg.child_frame_id == (b or ''), 'child frame')
    U = m.msg2transform(msg)
    env.eq(U.R, R, 'rotation after the round trip')
    env.eq(U.p, p, 'position after the round trip')
    if inner and a is not None:
        env.require(U.parent_frame_id == a, 'parent frame survives')
    if kind == 'transform_stamped' and b is not None:
        env.require(U.child_frame_id == b, 'child frame survives')
    env.eq(T.R, R, 'transform unchanged')
    env.eq(T.p, p, 'transform unchanged')


@scenario('C32', over=[{'kind': k} for k in KINDS])
def from_message(env, kind):
    """A message to a transform."""
    np = env.np
    ros(env)
    m = env.mod('ros_msg')
    cls, fn, inner, pf, rf, pc = KINDS[kind]
    q, p = env.unitquat('q'), env.vec('p')
    body = (Transform if pc is Vector3 else Pose)(pc(p[0], p[1], p[2]), Quaternion(q[1], q[2], q[3], q[0]))
    msg = body
    if kind == 'transform_stamped':
        msg = TransformStamped(Header(7, None, 'here'), 'there', body)
    elif kind == 'pose_stamped':
        msg = PoseStamped(Header(7, None, 'here'), body)
    T = m.msg2transform(msg)
    env.eq(T.R, quatR(np, q), 'rotation')
    env.eq(T.p, p, 'position')
    if inner:
        env.require(T.parent_frame_id == 'here', 'parent frame')
    else:
        env.require(T.parent_frame_id is None, 'no parent frame')
    env.require(T.child_frame_id == ('there' if kind == 'transform_stamped' else None), 'child frame')


@scenario('C32', over=[{'what': w} for w in ('none', 'vector', 'twist', 'header', 'number')])
def not_a_transform(env, what):
    """Anything that is no transform or pose is refused."""
    ros(env)
    m = env.mod('ros_msg')
    x = {'none': None, 'vector': Vector3(), 'twist': Twist(), 'header': Header(), 'number': 1.5}[what]
    try:
        m.msg2transform(x)
    except Exception:
        env.require(True, 'refused')
    else:
        env.fail('accepted as a transform')


@scenario('C32')
def repeated(env):
    """Two messages made one after the other do not share parts; the first is not changed by the second."""
    np = env.np
    ros(env)
    m = env.mod('ros_msg')
    A, B = [env.rox.Transform(env.frame('R' + c), env.vec('p' + c), 'w' + c, 'c' + c) for c in 'ab']
    for fn in ('transform2transform_stamped_msg', 'transform2pose_stamped_msg'):
        f = getattr(m, fn)
        x = f(A)
        y = f(B)
        env.require(x is not y and x.header is not y.header, 'separate messages')
        X, Y = m.msg2transform(x), m.msg2transform(y)
        for T, M, c in ((X, A, 'a'), (Y, B, 'b')):
            env.eq(T.R, M.R, 'rotation')
            env.eq(T.p, M.p, 'position')
            env.require(T.parent_frame_id == 'w' + c, 'frame')


# ---------------------------------------------------------------- C33
def listener(env, *a, **k):
    ros(env)
    l = env.mod('ros_tf').TransformListener(*a, **k)
    return l, RawListener.last


FRAMES = [('world', 'tool', 'map'), ('tool', 'world', 'odom'), ('a', 'a', 'a')]


@scenario('C33', over=[{'full': f, 'time': t} for f, t in ((False, 'given'), (False, 'default'), (False, 'keyword'), (True, 'given'), (True, 'keyword'))])
def lookup(env, full, time):
    """The transform asked for, with its two frame names; frames and times are passed on."""
    np = env.np
    l, raw = listener(env)
    a, b, c = env.choice('frames', FRAMES)
    q, p = env.unitquat('q'), env.vec('p')
    kind = env.choice('kind', ('list', 'tuple'))
    wrap = list if kind == 'list' else tuple
    raw.answer = (wrap(p), wrap([q[1], q[2], q[3], q[0]]))
    t, u = Time(3), Time(5)
    if full:
        T = l.lookupTransformFull(a, t, b, u, c) if time == 'given' else l.lookupTransformFull(target_frame=a, target_time=t, source_frame=b, source_time=u, fixed_frame=c)
        want = ('lookupTransformFull', (a, t, b, u, c), {})
    elif time == 'default':
        T = l.lookupTransform(a, b)
        want = None
    else:
        T = l.lookupTransform(a, b, t) if time == 'given' else l.lookupTransform(target_frame=a, source_frame=b, time=t)
        want = ('lookupTransform', (a, b, t), {})
    env.require(len(raw.calls) >= 1, 'the listener was asked')
    if want:
        env.require(raw.calls[-1] == want, 'frames and times as given')
    else:
        n, x, _ = raw.calls[-1]
        env.require(n == 'lookupTransform' and x[:2] == (a, b), 'frames as given')
        env.require(isinstance(x[2], Time) and x[2].secs == 0 and x[2].nsecs == 0, 'latest time by default')
    env.eq(T.R, quatR(np, q), 'rotation')
    env.eq(T.p, p, 'position')
    env.require(T.parent_frame_id == a and T.child_frame_id == b, 'frame names')


@scenario('C33')
def lookup_chain(env):
    """Lookups of consecutive frames compose to the lookup of the outer ones, names included; lookups do not affect one another."""
    np = env.np
    l, raw = listener(env)
    qs, ps = [env.unitquat('q%d' % i) for i in range(2)], [env.vec('p%d' % i) for i in range(2)]
    Ts = []
    for i, (a, b) in enumerate((('world', 'mid'), ('mid', 'tool'))):
        raw.answer = (list(ps[i]), [qs[i][1], qs[i][2], qs[i][3], qs[i][0]])
        Ts.append(l.lookupTransform(a, b))
    C = Ts[0] * Ts[1]
    env.eq(C.R, np.matmul(quatR(np, qs[0]), quatR(np, qs[1])), 'rotation')
    env.eq(C.p, ps[0] + np.matmul(quatR(np, qs[0]), ps[1]), 'position')
    env.require(C.parent_frame_id == 'world' and C.child_frame_id == 'tool', 'frame names')


@scenario('C33', over=[{'what': w, 'style': s} for w in ('canTransform', 'canTransformFull', 'waitForTransform', 'waitForTransformFull', 'clear') for s in ('positional', 'keyword', 'short')])
def forwarded(env, what, style):
    """Queries, waits and clear are passed on with their frames, times and time limits; the answer is passed back."""
    l, raw = listener(env)
    a, b, c = env.choice('frames', FRAMES)
    t, u, d, s = Time(3), Time(5), Duration(7), Duration(1)
    ans = env.choice('answer', (True, False, None))
    raw.answer = ans
    names = {'canTransform': ('target_frame', 'source_frame', 'time'), 'canTransformFull': ('target_frame', 'target_time', 'source_frame', 'source_time', 'fixed_frame'),
             'waitForTransform': ('target_frame', 'source_frame', 'time', 'timeout', 'polling_sleep_duration'),
             'waitForTransformFull': ('target_frame', 'target_time', 'source_frame', 'source_time', 'fixed_frame', 'timeout', 'polling_sleep_duration'), 'clear': ()}[what]
    vals = {'target_frame': a, 'source_frame': b, 'fixed_frame': c, 'time': t, 'target_time': t, 'source_time': u, 'timeout': d, 'polling_sleep_duration': s}
    args = [vals[n] for n in names]
    f = getattr(l, what)
    if style == 'keyword':
        r = f(**{n: vals[n] for n in names})
    elif style == 'short' and what.startswith('wait'):
        r = f(*args[:-1])
        args = args[:-1] + [None]
    elif style == 'short' and what == 'canTransform':
        r = f(*args[:-1])
        args = None
    else:
        r = f(*args)
    n, x, _ = raw.calls[-1]
    env.require(len(raw.calls) == 1, 'asked once')
    env.require(n == what, 'the same question')
    if args is not None:
        env.require(len(x) == len(args) and all(p is q for p, q in zip(x, args)), 'frames, times and limits as given')
    else:
        env.require(x[:2] == (a, b) and isinstance(x[2], Time) and x[2].secs == 0, 'frames as given, latest time')
    if what.startswith('can'):
        env.require(r is ans, 'the answer is passed back')


@scenario('C33', over=[{'what': w} for w in ('lookupTransform', 'lookupTransformFull', 'waitForTransform', 'canTransform')])
def errors_pass(env, what):
    """An error of the library reaches the caller."""
    l, raw = listener(env)
    e = env.choice('error', (LookupException, ConnectivityException, ExtrapolationException, TransformException))
    raw.answer = e('x')
    args = {'lookupTransform': ('a', 'b'), 'lookupTransformFull': ('a', Time(1), 'b', Time(2), 'c'), 'waitForTransform': ('a', 'b', Time(0), Duration(1)), 'canTransform': ('a', 'b')}[what]
    try:
        getattr(l, what)(*args)
    except e:
        env.require(True, 'raised')
    else:
        env.fail('the error was swallowed')


@scenario('C33')
def construction(env):
    """Arguments of the listener go to the library."""
    l, raw = listener(env, 3, True)
    env.require(raw.made == ((3, True), {}), 'positional arguments')
    l, raw2 = listener(env, cache=Duration(4))
    env.require(list(raw2.made[1]) == ['cache'] and raw2.made[1]['cache'].secs == 4, 'keyword arguments')
    raw2.answer = True
    l.canTransform('a', 'b')
    env.require(len(raw.calls) == 0 and len(raw2.calls) == 1, 'every listener has its own')
