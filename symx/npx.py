"""The numpy and math modules as seen by the code under test during symbolic execution."""
import math as _math
import itertools
import zlib
import types
import numpy as _np
from . import core, arr
from .core import Sym, SymBool, Unsupported, fand, for_, fnot, tof, TRUE, FALSE, ZERO, ONE_S, C, relsym
from .arr import SymArray, toarr, ew, wrap, UF


def hassym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(hassym(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(hassym(e, depth + 1) for e in x.values())
    return False


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __subclasscheck__(cls, o):
        return issubclass(o, (float, Sym))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class float_(float, metaclass=_FloatMeta):
    """float as seen by the code under test: symbolic values pass through."""
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return x.item()
        return float(x)


class _F64Meta(_FloatMeta):
    pass


class float64_(float, metaclass=_F64Meta):
    def __new__(cls, x=0.0):
        if hassym(x):
            a = toarr(x)
            return wrap(a)
        return _np.float64(x)


def realdtype(dt):
    if dt is None:
        return None
    if dt in (float_, float64_):
        return _np.float64
    return dt


def _wantint(dt):
    dt = realdtype(dt)
    if dt is None or dt is object:
        return False
    try:
        return _np.dtype(dt).kind in 'iub'
    except TypeError:
        return False


def _oarr(shape, val):
    out = _np.empty(shape, dtype=object)
    out.reshape(-1)[:] = [val] * out.size if out.size else []
    if out.ndim == 0:
        out[()] = val
    return out.view(SymArray)


def _isintarr(x):
    return isinstance(x, _np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in 'iub'


class NP(types.ModuleType):
    pass


NP = types.ModuleType('numpy')
NP.__symx__ = True
LA = types.ModuleType('numpy.linalg')
NP.linalg = LA
PISYM = object()


def export(f=None, names=(), mod=None):
    def deco(f):
        for n in (f.__name__,) + tuple(names):
            setattr(mod or NP, n.rstrip('_') if n.endswith('_') else n, f)
        return f
    return deco(f) if f else deco


# ---- creation

@export(names=('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray'))
def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if _wantint(dtype):
        if hassym(x):
            return toarr(x).astype(dtype)
        return _np.array(x, dtype=realdtype(dtype))
    if dtype is object or (not hassym(x) and _np.asarray(x, dtype=object).dtype == object and _strlike(x)):
        return _np.array(x, dtype=dtype)
    a = toarr(x)
    if isinstance(x, SymArray):
        a = a.copy()
    while a.ndim < ndmin:
        a = a.reshape((1,) + a.shape)
    return a


def _strlike(x):
    while isinstance(x, (list, tuple)) and x:
        x = x[0]
    return isinstance(x, str) or x is None


@export
def asarray(x, dtype=None, order=None):
    if isinstance(x, SymArray) and not _wantint(dtype):
        return x
    if _isintarr(x) and dtype is None:
        return x
    return array(x, dtype)


NP.asanyarray = NP.asfarray = NP.ascontiguousarray = asarray
NP.matrix = lambda x, dtype=None, copy=True: _atleast2(toarr(x))
NP.mat = NP.matrix


def _atleast2(a):
    return a if a.ndim >= 2 else a.reshape((1, -1))


@export
def zeros(shape, dtype=None, order=None):
    if _wantint(dtype):
        return _np.zeros(shape, dtype=dtype)
    return _oarr(shape, ZERO)


@export
def ones(shape, dtype=None, order=None):
    if _wantint(dtype):
        return _np.ones(shape, dtype=dtype)
    return _oarr(shape, ONE_S)


@export
def empty(shape, dtype=None, order=None):
    return zeros(shape, dtype)


@export
def full(shape, val, dtype=None, order=None):
    if isinstance(val, (list, tuple, _np.ndarray)):
        out = zeros(shape)
        out[...] = toarr(val)
        return out
    return _oarr(shape, arr.sc(val))


@export
def eye(n, m=None, k=0, dtype=None, order=None):
    r = zeros((n, m or n))
    for i in range(n):
        if 0 <= i + k < (m or n):
            r[i, i + k] = ONE_S
    return r


NP.identity = lambda n, dtype=None: eye(n)
NP.zeros_like = lambda a, dtype=None, **k: zeros(_np.shape(a), dtype)
NP.ones_like = lambda a, dtype=None, **k: ones(_np.shape(a), dtype)
NP.empty_like = NP.zeros_like
NP.full_like = lambda a, v, dtype=None, **k: full(_np.shape(a), v)


@export
def arange(*a, dtype=None):
    vals = [arr.sc(x) for x in a]
    if all(not isinstance(x, (Sym, float)) for x in a):
        return _np.arange(*a)
    ints = []
    for v in vals:
        if not v.isconst():
            raise Unsupported('symbolic arange')
        ints.append(core.Fraction(v.cval()))
    if len(ints) == 1:
        ints = [core.Fraction(0)] + ints
    start, stop = ints[:2]
    step = ints[2] if len(ints) > 2 else core.Fraction(1)
    out = []
    n = max(0, _math.ceil((stop - start) / step))
    for i in range(n):
        out.append(Sym.const(start + i * step))
    return toarr(out)


@export
def linspace(a, b, num=50, endpoint=True, **k):
    a, b = Sym.of(a), Sym.of(b)
    d = (num - 1) if endpoint else num
    return toarr([a + (b - a) * core.Fraction(i, d) for i in range(num)])


@export
def diag(v, k=0):
    v = toarr(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        r = zeros((n, n))
        for i in range(v.shape[0]):
            r[i + max(-k, 0), i + max(k, 0)] = v[i]
        return r
    return toarr([v[i, i + k] for i in range(min(v.shape)) if 0 <= i + k < v.shape[1]])


NP.diagonal = lambda a, *r, **k: diag(toarr(a))
NP.diagflat = lambda v: diag(toarr(v).reshape(-1))


def fill_diagonal(a, v):
    for i in range(min(a.shape)):
        a[i, i] = v


NP.fill_diagonal = fill_diagonal

# ---- elementwise

for _name in list(UF):
    def _mk(n):
        def f(*args, **kw):
            out = kw.pop('out', None)
            kw.pop('where', None), kw.pop('dtype', None)
            r = ew(UF[n], *args)
            if out is not None:
                out[...] = r
                return out
            return r
        f.__name__ = n
        return f
    setattr(NP, _name, _mk(_name))


class _Ufunc:
    """add/subtract/... with .reduce and .outer"""
    def __init__(self, n):
        self.n = n
        self.__name__ = n

    def __call__(self, *args, **kw):
        return arr.ufunc(getattr(_np, self.n), '__call__', *args, **kw)

    def reduce(self, a, axis=0, **k):
        return arr.ufunc(getattr(_np, self.n), 'reduce', toarr(a) if not isinstance(a, list) else toarr(a), axis=axis)

    def outer(self, a, b):
        return arr.ufunc(getattr(_np, self.n), 'outer', a, b)

    def accumulate(self, a, axis=0):
        return arr.ufunc(getattr(_np, self.n), 'accumulate', a, axis=axis)


for _name in ('add', 'multiply', 'subtract', 'logical_and', 'logical_or', 'maximum', 'minimum'):
    setattr(NP, _name, _Ufunc(_name))
NP.abs = NP.absolute
NP.acos, NP.asin, NP.atan, NP.atan2 = NP.arccos, NP.arcsin, NP.arctan, NP.arctan2
NP.pow = NP.power


@export
def divmod_(a, b):
    a, b = toarr(a), toarr(b)
    a2, b2 = _np.broadcast_arrays(a.view(_np.ndarray), b.view(_np.ndarray))
    q = _np.empty(a2.shape, dtype=object)
    r = _np.empty(a2.shape, dtype=object)
    for i in _np.ndindex(a2.shape):
        q[i] = core.floordiv(a2[i], b2[i])
        r[i] = a2[i] - q[i] * b2[i]
    return wrap(q.view(SymArray)), wrap(r.view(SymArray))


NP.divmod = divmod_


@export(names=('around', 'round_'))
def round(a, decimals=0, out=None):
    return ew(lambda x: core.sround(x, decimals), a)


NP.round = NP.around = NP.round_ = round


@export
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = ew(UF['maximum'], r, a_min)
    if a_max is not None:
        r = ew(UF['minimum'], r, a_max)
    if out is not None:
        out[...] = r
    return r if r is not a else (toarr(a).copy())


@export
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(x):
        x = Sym.of(x)
        if not x.nan:
            return x
        if x.nan == 'nan':
            return Sym.of(nan)
        return Sym.of((posinf if posinf is not None else 1.7976931348623157e308) if x.nan == 'inf' else
                      (neginf if neginf is not None else -1.7976931348623157e308))
    r = ew(f, a)
    if not copy:
        a[...] = r
    return r


@export
def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    x, y = xy

    def f(c, a, b):
        return a if bool(SymBool(tof(c))) else b
    return ew(f, cond, x, y)


@export
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rtol, atol = Sym.of(rtol), Sym.of(atol)

    def f(x, y):
        x, y = Sym.of(x), Sym.of(y)
        if x.nan or y.nan:
            return SymBool(TRUE if (x.nan == y.nan and x.nan != 'nan') or (equal_nan and x.nan == y.nan) else FALSE)
        d = x - y
        bound = atol + rtol * core.sabs(y) if not rtol.iszero() else atol
        if d.iszero():
            return SymBool(core.relsym(-bound, '<='))
        # |d| <= bound  <=>  -bound <= d <= bound
        return SymBool(fand(relsym(d - bound, '<='), relsym(-d - bound, '<=')))
    return ew(f, a, b)


@export
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = toarr(a), toarr(b)
    if a.shape == b.shape and a.ndim in (1, 2) and a.size >= 3:
        # a row of the difference with a constant norm larger than the tolerance settles the comparison (e.g. rows of a rotation matrix)
        za, zb = a.view(_np.ndarray).reshape(-1, a.shape[-1]), b.view(_np.ndarray).reshape(-1, a.shape[-1])
        for ra, rb in zip(za, zb):
            d = [Sym.of(x) - Sym.of(y) for x, y in zip(ra, rb)]
            rbs = [Sym.of(y) for y in rb]
            if any(x.nan for x in d) or (not all(y.isconst() for y in rbs) and not all(Sym.of(x).isconst() for x in ra)):
                break
            if sum(len(x.num) for x in d) > 400:
                break
            n = sum((x * x for x in d), Sym.of(0))
            if not n.isconst():
                break
            # |a-b| <= atol + rtol |b| in each entry, with |b| <= |a-b| + |a|
            if all(y.isconst() for y in rbs):
                t = max([0] + [abs(float(y.cval())) for y in rbs]) * float(rtol) + float(atol)
            else:
                m = max(abs(float(Sym.of(x).cval())) for x in ra)
                t = (float(atol) + float(rtol) * m) / (1 - float(rtol))
            if float(n.cval()) > len(d) * t * t * 1.001 + 1e-30:
                return SymBool(FALSE) if 'FALSE' in globals() else False
    return all_(isclose(a, b, rtol, atol, equal_nan))


@export
def array_equal(a, b, **k):
    a, b = toarr(a), toarr(b)
    if a.shape != b.shape:
        return False
    return all_(ew(UF['equal'], a, b))


# ---- reductions

def _axes(a, axis):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return None
        raise Unsupported('multi-axis reduction')
    return axis % a.ndim if a.ndim else None


def _reduce(a, axis, fn, keepdims=False):
    a = toarr(a)
    ax = _axes(a, axis)
    if ax is None:
        r = fn(list(a.view(_np.ndarray).reshape(-1)))
        if keepdims:
            return _oarr((1,) * a.ndim, r)
        return r
    b = _np.moveaxis(a.view(_np.ndarray), ax, -1)
    out = _np.empty(b.shape[:-1], dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = fn(list(b[i]))
    out = out.view(SymArray)
    if keepdims:
        out = out.reshape(a.shape[:ax] + (1,) + a.shape[ax + 1:])
    return wrap(out)


def _sum(l):
    t = ZERO
    for x in l:
        t = t + Sym.of(x)
    return t


def _prod(l):
    t = ONE_S
    for x in l:
        t = t * Sym.of(x)
    return t


def _max(l):
    t = Sym.of(l[0])
    for x in l[1:]:
        t = core.smax(t, x)
    return t


def _min(l):
    t = Sym.of(l[0])
    for x in l[1:]:
        t = core.smin(t, x)
    return t


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce(a, axis, _sum, keepdims)


def all_(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, (bool, _np.bool_)):
        return a
    return _reduce(a, axis, lambda l: SymBool(fand(*[tof(x) for x in l])), keepdims)


def any_(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, (bool, _np.bool_)):
        return a
    return _reduce(a, axis, lambda l: SymBool(for_(*[tof(x) for x in l])), keepdims)


NP.sum, NP.all, NP.any = sum_, all_, any_
NP.nansum = sum_
NP.alltrue, NP.sometrue = all_, any_
NP.prod = NP.product = lambda a, axis=None, **k: _reduce(a, axis, _prod, k.get('keepdims', False))
NP.max = NP.amax = NP.nanmax = lambda a, axis=None, **k: _reduce(a, axis, _max, k.get('keepdims', False))
NP.min = NP.amin = NP.nanmin = lambda a, axis=None, **k: _reduce(a, axis, _min, k.get('keepdims', False))


def _len(a, axis):
    a = toarr(a)
    return a.size if axis is None else a.shape[axis]


NP.mean = NP.average = lambda a, axis=None, **k: NP.divide(sum_(a, axis, keepdims=k.get('keepdims', False)), _len(a, axis))


def count_nonzero(a, axis=None):
    return _builtin_sum(1 for x in toarr(a).view(_np.ndarray).reshape(-1) if bool(SymBool(tof(x))))


_builtin_sum = sum
NP.count_nonzero = count_nonzero


def cumsum(a, axis=None, **k):
    a = toarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    out = a.copy()
    b = _np.moveaxis(out.view(_np.ndarray), axis, 0)
    for i in range(1, b.shape[0]):
        b[i] = b[i] + b[i - 1]
    return out


NP.cumsum = cumsum


def _argext(l, better):
    k = 0
    for i in range(1, len(l)):
        if bool(better(Sym.of(l[i]), Sym.of(l[k]))):
            k = i
    return k


def argmax(a, axis=None, **k):
    return _argred(a, axis, lambda x, y: x > y)


def argmin(a, axis=None, **k):
    return _argred(a, axis, lambda x, y: x < y)


def _argred(a, axis, better):
    a = toarr(a)
    if axis is None:
        return _np.intp(_argext(list(a.view(_np.ndarray).reshape(-1)), better))
    b = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    out = _np.empty(b.shape[:-1], dtype=int)
    for i in _np.ndindex(out.shape):
        out[i] = _argext(list(b[i]), better)
    return out if out.ndim else _np.intp(out)


NP.argmax, NP.argmin = argmax, argmin


def _sortidx(l):
    idx = []
    for i, x in enumerate(l):
        x = Sym.of(x)
        j = len(idx)
        while j > 0 and bool(x < Sym.of(l[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(a, axis=-1, kind=None, order=None, **k):
    a = toarr(a)
    if a.ndim == 1:
        return _np.array(_sortidx(list(a.view(_np.ndarray))), dtype=int)
    if axis is None:
        return _np.array(_sortidx(list(a.view(_np.ndarray).reshape(-1))), dtype=int)
    b = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    out = _np.empty(b.shape, dtype=int)
    for i in _np.ndindex(b.shape[:-1]):
        out[i] = _sortidx(list(b[i]))
    return _np.moveaxis(out, -1, axis)


def sort(a, axis=-1, **k):
    a = toarr(a)
    if a.ndim != 1:
        raise Unsupported('sort of a matrix')
    return a[argsort(a)]


NP.argsort, NP.sort = argsort, sort


def lexsort(keys, axis=-1):
    ks = [list(toarr(k).view(_np.ndarray)) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        sub = _sortidx([k[i] for i in idx])
        idx = [idx[i] for i in sub]
    return _np.array(idx)


NP.lexsort = lexsort


def _truthy(a):
    if isinstance(a, _np.ndarray) and not isinstance(a, SymArray):
        return a
    a = toarr(a)
    return _np.array([bool(SymBool(tof(x))) for x in a.view(_np.ndarray).reshape(-1)], dtype=bool).reshape(a.shape)


def nonzero(a):
    return _np.nonzero(_truthy(a))


NP.nonzero = nonzero
NP.argwhere = lambda a: _np.argwhere(_truthy(a))
NP.flatnonzero = lambda a: _np.flatnonzero(_truthy(a))


# ---- linear algebra

def _dot1(a, b):
    t = ZERO
    for x, y in zip(a, b):
        if isinstance(x, Sym) and isinstance(y, Sym) and ((not x.num and not x.nan) or (not y.num and not y.nan)) and not (x.nan or y.nan):
            continue
        t = t + x * y
    return t


def matmul(a, b, out=None, **k):
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    r = _mm(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


def _mm(a, b):
    av, bv = a.view(_np.ndarray), b.view(_np.ndarray)
    if av.ndim > 2 or bv.ndim > 2:
        raise Unsupported('stacked matmul')
    a2 = av.reshape((1, -1)) if av.ndim == 1 else av
    b2 = bv.reshape((-1, 1)) if bv.ndim == 1 else bv
    if a2.shape[1] != b2.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    out = _np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            out[i, j] = _dot1(a2[i], b2[:, j])
    if av.ndim == 1 and bv.ndim == 1:
        return out[0, 0]
    if av.ndim == 1:
        out = out.reshape(-1)
    elif bv.ndim == 1:
        out = out.reshape(-1)
    return out.view(SymArray)


def dot(a, b, out=None):
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(UF['multiply'], a, b)
    try:
        r = _mm(a, b)
    except ValueError:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    return r


NP.matmul, NP.dot = matmul, dot
NP.vdot = lambda a, b: dot(toarr(a).reshape(-1), toarr(b).reshape(-1))


def inner(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(UF['multiply'], a, b)
    return dot(a, b.T) if b.ndim == 2 else dot(a, b)


NP.inner = inner


def outer(a, b, out=None):
    a, b = toarr(a).reshape(-1), toarr(b).reshape(-1)
    return ew(UF['multiply'], a.reshape((-1, 1)), b.reshape((1, -1)), keep=True)


NP.outer = outer


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = toarr(a), toarr(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    if a.ndim == 1 and b.ndim == 1:
        if a.shape[0] != 3 or b.shape[0] != 3:
            raise Unsupported('2-d cross product')
        return toarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    am = _np.moveaxis(a.view(_np.ndarray), axisa, -1)
    bm = _np.moveaxis(b.view(_np.ndarray), axisb, -1)
    am, bm = _np.broadcast_arrays(am, bm)
    if am.shape[-1] != 3:
        raise ValueError('incompatible dimensions for cross product')
    out = _np.empty(am.shape, dtype=object)
    for i in _np.ndindex(am.shape[:-1]):
        out[i] = cross(toarr(am[i]), toarr(bm[i])).view(_np.ndarray)
    return _np.moveaxis(out, -1, axisc).view(SymArray)


NP.cross = cross
LA.cross = cross


def trace(a, *r, **k):
    a = toarr(a)
    return _sum([a[i, i] for i in range(min(a.shape))])


NP.trace = trace
LA.trace = trace


def kron(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim == 2 and b.ndim == 2:
        return block([[a[i, j] * b for j in range(a.shape[1])] for i in range(a.shape[0])])
    raise Unsupported('kron')


NP.kron = kron


def block(rows):
    def asb(x):
        a = toarr(x)
        return a.reshape((1,) * (2 - a.ndim) + a.shape) if a.ndim < 2 else a
    if not isinstance(rows, list):
        return toarr(rows)
    if rows and isinstance(rows[0], list):
        hs = [_np.concatenate([asb(x).view(_np.ndarray) for x in r], axis=1) for r in rows]
        return _np.concatenate(hs, axis=0).view(SymArray)
    return hstack(rows)


NP.block = block


def _lst(xs):
    return [toarr(x).view(_np.ndarray) for x in xs]


def concatenate(xs, axis=0, **k):
    xs = list(xs)
    if not any(hassym(x) for x in xs) and all(_isintarr(x) for x in xs):
        return _np.concatenate(xs, axis)
    return _np.concatenate(_lst(xs), axis).view(SymArray)


def hstack(xs, **k):
    return _np.hstack([_np.atleast_1d(x) for x in _lst(xs)]).view(SymArray)


def vstack(xs, **k):
    return _np.vstack(_lst(xs)).view(SymArray)


NP.concatenate, NP.hstack, NP.vstack = concatenate, hstack, vstack
NP.concat = concatenate
NP.row_stack = vstack
NP.stack = lambda xs, axis=0, **k: _np.stack(_lst(xs), axis).view(SymArray)
NP.column_stack = lambda xs: _np.column_stack(_lst(xs)).view(SymArray)
NP.dstack = lambda xs: _np.dstack(_lst(xs)).view(SymArray)
NP.append = lambda a, v, axis=None: (_np.append(toarr(a).view(_np.ndarray), toarr(v).view(_np.ndarray), axis)).view(SymArray)
NP.insert = lambda a, i, v, axis=None: (_np.insert(toarr(a).view(_np.ndarray), i, toarr(v).view(_np.ndarray), axis)).view(SymArray)


class _R:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        parts = [_np.atleast_1d(toarr(x).view(_np.ndarray)) for x in k]
        if self.col:
            parts = [p.reshape((-1, 1)) if p.ndim == 1 else p for p in parts]
            return _np.concatenate(parts, axis=1).view(SymArray)
        return _np.concatenate(parts, axis=0).view(SymArray)


NP.r_, NP.c_ = _R(False), _R(True)


def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ops = [toarr(o).view(_np.ndarray) for o in ops]
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(',', ''):
            cnt[ch] = cnt.get(ch, 0) + 1
        outs = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
    ins = ins.split(',')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    summed = [ch for ch in dims if ch not in outs]
    out = _np.empty([dims[ch] for ch in outs], dtype=object)
    for i in _np.ndindex(out.shape) if outs else [()]:
        env = dict(zip(outs, i))
        t = ZERO
        for j in itertools.product(*[range(dims[ch]) for ch in summed]):
            env.update(zip(summed, j))
            p = ONE_S
            for s, o in zip(ins, ops):
                x = o[tuple(env[ch] for ch in s)]
                if x.iszero():
                    p = ZERO
                    break
                p = p * x
            t = t + p
        out[i] = t
    return wrap(out.view(SymArray))


NP.einsum = einsum


def tensordot(a, b, axes=2):
    a, b = toarr(a), toarr(b)
    if axes == 1 or axes == (1, 0) or axes == ([1], [0]) or axes == [[1], [0]]:
        return dot(a, b)
    if axes == 2:
        return _sum([x * y for x, y in zip(a.reshape(-1), b.reshape(-1))])
    raise Unsupported('tensordot')


NP.tensordot = tensordot


def norm(x, ord=None, axis=None, keepdims=False):
    x = toarr(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim == 2 and axis is None):
        if ord in (1, _math.inf) and x.ndim == 1 and axis is None:
            l = [core.sabs(e) for e in x]
            return _sum(l) if ord == 1 else _max(l)
        raise Unsupported('norm ord')
    if axis is None:
        r = core._sqrt_nonneg(_sum([Sym.of(e) * Sym.of(e) for e in x.view(_np.ndarray).reshape(-1)]))
        return r if not keepdims else _oarr((1,) * x.ndim, r)
    return _reduce(x, axis, lambda l: core._sqrt_nonneg(_sum([Sym.of(e) * Sym.of(e) for e in l])), keepdims)


LA.norm = norm
LA.vector_norm = norm
LA.LinAlgError = _np.linalg.LinAlgError


def det(a):
    a = toarr(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = ZERO
    for j in range(n):
        if a[0, j].iszero():
            continue
        m = toarr([[a[i, k] for k in range(n) if k != j] for i in range(1, n)])
        t = t + a[0, j] * det(m) * (-1 if j % 2 else 1)
    return t


def inv(a):
    a = toarr(a)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    d = det(a)
    if bool(d == 0):
        raise _np.linalg.LinAlgError('Singular matrix')
    if n == 1:
        return toarr([[ONE_S / d]])
    out = zeros((n, n))
    for i in range(n):
        for j in range(n):
            m = toarr([[a[r, c] for c in range(n) if c != i] for r in range(n) if r != j])
            out[i, j] = det(m) * (-1 if (i + j) % 2 else 1) / d
    return out


def solve(a, b):
    return dot(inv(a), b)


LA.det, LA.inv, LA.solve = det, inv, solve
LA.multi_dot = lambda xs: _fold(xs)
LA.matrix_power = lambda a, n: _fold([a] * n) if n > 0 else eye(toarr(a).shape[0])


def _fold(xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


def pinv(a, *r, **k):
    """Pseudo-inverse: an arbitrary matrix of the right shape (over-approximation)."""
    a = toarr(a)
    ctx = C()
    hook = getattr(ctx, 'pinv_hook', None)
    if hook is not None:
        return hook(a)
    n = ctx.fresh('pinv')
    out = zeros((a.shape[1], a.shape[0]))
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            v = ctx.newvar('%s_%d_%d' % (n, i, j), 'fresh', ev=lambda p, i=i, j=j: core.ONE * ((i * 3 + j * 5 + p) % 7 - 3) // 4)
            out[i, j] = Sym.var(v)
    ctx.notes.add('pinv is an arbitrary matrix')
    return out


LA.pinv = pinv


def lstsq(a, b, rcond=None):
    return dot(pinv(a), b), toarr([]), None, None


LA.lstsq = lstsq

# ---- shape manipulation: numpy itself works on object arrays

for _n in ('reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'moveaxis', 'atleast_1d', 'atleast_2d', 'expand_dims', 'tile',
           'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'broadcast_to', 'split', 'array_split', 'hsplit', 'vsplit', 'delete', 'copy',
           'triu', 'tril', 'rot90', 'take', 'permute_dims', 'matrix_transpose', 'rollaxis'):
    if not hasattr(_np, _n):
        continue

    def _mk2(n):
        fn = getattr(_np, n)

        def f(a, *args, **kw):
            if _isintarr(a):
                return fn(a, *args, **kw)
            base = toarr(a).view(_np.ndarray)
            if n in ('take', 'repeat', 'roll', 'tile', 'delete', 'reshape'):
                args = [_ix(x) for x in args]
                kw = {k: _ix(x) for k, x in kw.items()}
            if n == 'copy':
                return base.copy().view(SymArray)
            if n in ('triu', 'tril'):
                k = kw.get('k', args[0] if args else 0)
                m = _np.triu(_np.ones(base.shape), k) if n == 'triu' else _np.tril(_np.ones(base.shape), k)
                return toarr([[base[i, j] if m[i, j] else ZERO for j in range(base.shape[1])] for i in range(base.shape[0])])
            r = fn(base, *args, **kw)
            if isinstance(r, list):
                return [x.view(SymArray) for x in r]
            if isinstance(r, _np.ndarray):
                return wrap(r.view(SymArray))
            return r
        return f
    setattr(NP, _n, _mk2(_n))


def _ix(x):
    if hassym(x):
        a = toarr(x)
        r = _np.array([int(e) for e in a.view(_np.ndarray).reshape(-1)], dtype=int).reshape(a.shape)
        return int(r) if r.ndim == 0 else r
    return x


NP.shape = lambda a: a.shape if isinstance(a, _np.ndarray) else (_np.shape(a) if not hassym(a) else toarr(a).shape)
NP.ndim = lambda a: len(NP.shape(a))
NP.size = lambda a, axis=None: int(_np.prod(NP.shape(a))) if axis is None else NP.shape(a)[axis]
NP.isscalar = lambda x: isinstance(x, Sym) or _np.isscalar(x)
NP.iterable = _np.iterable
NP.isreal = lambda x: ew(lambda e: SymBool(TRUE), x)
NP.ix_ = _np.ix_
NP.ndindex = _np.ndindex
NP.vectorize = lambda f, **k: (lambda *a: ew(f, *a))
NP.array_repr = lambda a, *r, **k: repr(a)
NP.array_str = lambda a, *r, **k: str(a)
NP.array2string = lambda a, *r, **k: str(a)
def _plain(a):
    return a.view(_np.ndarray) if isinstance(a, SymArray) else a


NP.may_share_memory = lambda a, b, **k: _np.may_share_memory(_plain(a), _plain(b))
NP.shares_memory = lambda a, b, **k: _np.shares_memory(_plain(a), _plain(b))
NP.diff = lambda a, n=1, axis=-1: toarr(a)[1:] - toarr(a)[:-1]
NP.unwrap = None
del NP.unwrap


def unique(a, *r, **k):
    raise Unsupported('numpy.unique')


def apply_along_axis(f, axis, a, *args, **kw):
    a = toarr(a)
    b = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    rows = [f(toarr(b[i]), *args, **kw) for i in _np.ndindex(b.shape[:-1])]
    return toarr(rows)


NP.apply_along_axis = apply_along_axis


class _finfo:
    def __init__(self, dt):
        i = _np.finfo(_np.float64)
        self.eps = float(i.eps)
        self.max, self.min, self.tiny, self.resolution = float(i.max), float(i.min), float(i.tiny), float(i.resolution)
        self.smallest_normal = self.tiny
        self.epsneg = float(i.epsneg)


NP.finfo = _finfo
NP.float64 = NP.double = NP.float_ = NP.longdouble = float64_
NP.float32 = _np.float32
NP.ndarray = _np.ndarray
NP.generic = _np.generic
NP.number, NP.floating, NP.integer, NP.bool_ = _np.number, _np.floating, _np.integer, _np.bool_
NP.bool = _np.bool_
NP.int8, NP.int16, NP.int32, NP.int64, NP.uint8, NP.intp, NP.int_ = _np.int8, _np.int16, _np.int32, _np.int64, _np.uint8, _np.intp, _np.int_
NP.newaxis = None
NP.nan = NP.NaN = float('nan')
NP.inf = NP.Inf = NP.infty = float('inf')
NP.__version__ = _np.__version__
NP.errstate = _np.errstate
NP.seterr = _np.seterr
NP.set_printoptions = _np.set_printoptions
NP.e = _math.e
NP.testing = _np.testing
NP.isposinf = lambda x: ew(lambda e: SymBool(TRUE if Sym.of(e).nan == 'inf' else FALSE), x)
NP.isneginf = lambda x: ew(lambda e: SymBool(TRUE if Sym.of(e).nan == '-inf' else FALSE), x)


class _Random(types.ModuleType):
    def __getattr__(self, n):
        raise Unsupported('numpy.random.%s' % n)


class _RandMod:
    """random draws are fresh variables in [0,1)"""
    def rand(self, *shape):
        ctx = C()
        n = ctx.fresh('rand')

        def one(tag):
            v = ctx.newvar('%s_%s' % (n, tag), 'fresh', ev=lambda p: core.ONE * ((zlib.crc32(repr((tag, p)).encode()) % 1000)) // 1000)
            v.sign, v.lo, v.hi = '0+', 0, 1
            v.defs = [relsym(Sym.var(v) - 1, '<')]
            return Sym.var(v)
        if not shape:
            return one('x')
        out = zeros(shape)
        for i in _np.ndindex(shape):
            out[i] = one('_'.join(map(str, i)))
        return out

    def random(self, size=None):
        return self.rand(*(size if isinstance(size, tuple) else () if size is None else (size,)))
    random_sample = random

    def uniform(self, lo=0.0, hi=1.0, size=None):
        return lo + (Sym.of(hi) - lo) * self.random(size)

    def __getattr__(self, n):
        raise Unsupported('numpy.random.%s' % n)


NP.random = _RandMod()


def _getattr(name):
    if name == 'pi':
        return Sym.var(C().pi())
    if name.startswith('__'):
        raise AttributeError(name)
    if not hasattr(_np, name):
        raise AttributeError('module numpy has no attribute %r' % name)
    real = getattr(_np, name)
    if isinstance(real, type) or not callable(real):
        return real

    def f(*a, **k):
        if hassym(a) or hassym(k):
            raise Unsupported('numpy.%s' % name)
        r = real(*a, **k)
        return r
    return f


NP.__getattr__ = _getattr


def _lagetattr(name):
    if name.startswith('__'):
        raise AttributeError(name)

    def f(*a, **k):
        raise Unsupported('numpy.linalg.%s' % name)
    getattr(_np.linalg, name)
    return f


LA.__getattr__ = _lagetattr

_AF = {}


def array_function(func, args, kwargs):
    """Real numpy functions reached with symbolic arrays (e.g. from imported helpers)."""
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    t = getattr(LA, name, None) if 'linalg' in mod else NP.__dict__.get(name)
    if t is not None and t is not func:
        return t(*args, **kwargs)
    raise Unsupported('numpy.%s' % name)


# ---- math

MATH = types.ModuleType('math')


def _m(f, strict=False):
    def g(*a):
        return f(*[Sym.of(x) for x in a])
    return g


MATH.sin, MATH.cos, MATH.tan = _m(core.ssin), _m(core.scos), _m(core.stan)
MATH.atan2, MATH.atan = _m(core.satan2), _m(core.satan)


def _msqrt(x):
    return core.ssqrt(Sym.of(x), strict=True)


MATH.sqrt = _msqrt
MATH.acos = lambda x: core.sarccos(Sym.of(x), strict=True)
MATH.asin = lambda x: core.sarcsin(Sym.of(x), strict=True)
MATH.fabs = _m(core.sabs)
MATH.hypot = lambda *a: core._sqrt_nonneg(_sum([Sym.of(x) * Sym.of(x) for x in a]))
MATH.pow = _m(core.power)
MATH.copysign = _m(arr.copysign)
MATH.floor = lambda x: core.concretise_int(Sym.of(x), 'floor')
MATH.ceil = lambda x: core.concretise_int(Sym.of(x), 'ceil')
MATH.trunc = lambda x: core.concretise_int(Sym.of(x), 'trunc')
MATH.fmod = _m(arr.fmod)


def _mremainder(a, b):
    a, b = Sym.of(a), Sym.of(b)
    q = core.div(a, b)
    n = core.concretise_int(q + core.Fraction(1, 2), 'floor')
    return a - b * n


MATH.remainder = _mremainder
MATH.isnan = lambda x: bool(arr._isnan(x))
MATH.isinf = lambda x: bool(arr._isinf(x))
MATH.isfinite = lambda x: bool(arr._isfinite(x))
MATH.radians = lambda x: Sym.of(x) * Sym.var(C().pi()) / 180
MATH.degrees = lambda x: Sym.of(x) * 180 / Sym.var(C().pi())
MATH.inf, MATH.nan, MATH.e = _math.inf, _math.nan, _math.e
MATH.fsum = lambda l: _sum(list(l))
MATH.prod = lambda l, start=1: _prod(list(l)) * start
MATH.dist = lambda p, q: core.ssqrt(_sum([(Sym.of(a) - b) * (Sym.of(a) - b) for a, b in zip(p, q)]))
MATH.gcd, MATH.comb, MATH.factorial, MATH.isqrt = _math.gcd, _math.comb, _math.factorial, _math.isqrt


def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = Sym.of(a), Sym.of(b)
    d = a - b
    if d.iszero():
        return True
    m = core.smax(core.sabs(a), core.sabs(b)) * rel_tol
    bnd = core.smax(m, abs_tol)
    return bool(SymBool(fand(relsym(d - bnd, '<='), relsym(-d - bnd, '<='))))


MATH.isclose = _misclose


def _mgetattr(name):
    if name == 'pi':
        return Sym.var(C().pi())
    if name == 'tau':
        return 2 * Sym.var(C().pi())
    if name.startswith('__'):
        raise AttributeError(name)
    real = getattr(_math, name)

    def f(*a, **k):
        if hassym(a):
            raise Unsupported('math.%s' % name)
        return real(*a, **k)
    return f


MATH.__getattr__ = _mgetattr
