"""Object arrays of symbolic scalars that behave like numpy float arrays."""
import numpy as np
from . import core
from .core import Sym, SymBool, Unsupported, F, fand, for_, fnot, tof, TRUE, FALSE, ZERO


def sc(x):
    """A scalar element: Sym or SymBool."""
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SymBool(TRUE if x else FALSE)
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return sc(x.reshape(-1)[0])
        raise ValueError('setting an array element with a sequence.')
    return Sym.of(x)


class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        return npx.array_function(func, args, kwargs)

    def __setitem__(self, key, val):
        key = _key(key)
        if isinstance(val, (list, tuple)):
            val = toarr(val)
        if isinstance(val, np.ndarray):
            cur = np.ndarray.__getitem__(self, key)
            if not isinstance(cur, np.ndarray):
                if val.size == 1:
                    np.ndarray.__setitem__(self, key, sc(val.reshape(-1)[0]))
                    return
                raise ValueError('setting an array element with a sequence.')
            val = toarr(val)
            np.broadcast_to(np.asarray(val), cur.shape)   # raises ValueError exactly as numpy does
            np.ndarray.__setitem__(self, key, np.asarray(val))
            return
        cur = np.ndarray.__getitem__(self, key)
        if isinstance(cur, np.ndarray):
            t = np.empty((), dtype=object)
            t[()] = sc(val)
            np.ndarray.__setitem__(self, key, t)
        else:
            np.ndarray.__setitem__(self, key, sc(val))

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, _key(key))
        return r

    # methods numpy would run natively on object elements
    def _np(self):
        from . import npx
        return npx.NP

    def dot(self, o, out=None):
        return self._np().dot(self, o)

    def sum(self, axis=None, **k):
        return self._np().sum(self, axis=axis, **k)

    def prod(self, axis=None, **k):
        return self._np().prod(self, axis=axis)

    def mean(self, axis=None, **k):
        return self._np().mean(self, axis=axis)

    def all(self, axis=None, **k):
        return self._np().all(self, axis=axis)

    def any(self, axis=None, **k):
        return self._np().any(self, axis=axis)

    def max(self, axis=None, **k):
        return self._np().max(self, axis=axis)

    def min(self, axis=None, **k):
        return self._np().min(self, axis=axis)

    def argmax(self, axis=None, **k):
        return self._np().argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return self._np().argmin(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return self._np().argsort(self, axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = self._np().sort(self, axis=axis)

    def trace(self, **k):
        return self._np().trace(self)

    def round(self, decimals=0, **k):
        return self._np().round(self, decimals)

    def clip(self, a_min=None, a_max=None, **k):
        return self._np().clip(self, a_min, a_max)

    def nonzero(self):
        return self._np().nonzero(self)

    def cumsum(self, axis=None, **k):
        return self._np().cumsum(self, axis=axis)

    def item(self, *a):
        if a:
            return np.ndarray.item(self, *a)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.reshape(-1)[0]

    def astype(self, dtype, *a, **k):
        dt = dtype
        try:
            from . import npx
            dt = npx.realdtype(dtype)
        except Exception:
            pass
        if dt is not None and np.dtype(dt).kind in 'iu':
            out = np.empty(self.shape, dtype=dt)
            for i in np.ndindex(self.shape):
                x = np.ndarray.__getitem__(self, i)
                out[i] = int(x)
            return out
        if dt is not None and np.dtype(dt).kind == 'b':
            return ew(lambda x: SymBool(tof(x)), self)
        return self.copy()

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes of a symbolic array')

    def __bool__(self):
        if self.size == 1:
            return bool(sc(self.reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.size == 1:
            return self.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __round__(self, n=0):
        return self.round(n)

    def __divmod__(self, o):
        return self._np().divmod(self, o)

    def __rdivmod__(self, o):
        return self._np().divmod(o, self)

    def __contains__(self, x):
        return bool(self._np().any(self == x))

    def __repr__(self):
        return 'SymArray(%s)' % (np.array2string(np.asarray(self).view(np.ndarray)) if self.size < 40 else self.shape,)
    __str__ = __repr__

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')


def _key1(k):
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymArray):
        if k.size and isinstance(k.reshape(-1)[0], SymBool):
            return np.array([bool(x) for x in np.ndarray.ravel(k)], dtype=bool).reshape(k.shape)
        return np.array([x.__index__() for x in np.ndarray.ravel(k)], dtype=int).reshape(k.shape)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, list):
        return [_key1(x) for x in k]
    return k


def _key(key):
    if isinstance(key, tuple):
        return tuple(_key1(k) for k in key)
    return _key1(key)


def toarr(x):
    """SymArray view of anything array-like."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (Sym, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SymArray)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        flat = out.reshape(-1)
        for i, e in enumerate(x.reshape(-1)):
            flat[i] = sc(e)
        return out.view(SymArray)
    if isinstance(x, (list, tuple)) or (hasattr(x, '__iter__') and not isinstance(x, (str, dict))):
        parts = [toarr(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object).view(SymArray)
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p.view(np.ndarray) if sh else p.reshape(-1)[0]
        return out.view(SymArray)
    if x is None or isinstance(x, str):
        raise TypeError('float() argument must be a string or a real number')
    return toarr(sc(x))


def wrap(a):
    """0-d results become scalars."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.reshape(-1)[0] if not isinstance(a, SymArray) else a.view(np.ndarray).reshape(-1)[0]
    return a


def ew(fn, *args, keep=False):
    arrs = [toarr(a).view(np.ndarray) for a in args]
    if all(a.ndim == 0 for a in arrs) and not keep:
        return fn(*[a[()] for a in arrs])
    bs = np.broadcast_arrays(*arrs)
    out = np.empty(bs[0].shape, dtype=object)
    flat = out.reshape(-1)
    its = [b.reshape(-1) for b in bs]
    for i in range(flat.shape[0]):
        flat[i] = fn(*[t[i] for t in its])
    return flat.reshape(out.shape).view(SymArray)


def num(f):
    return lambda *a: f(*[Sym.of(x) for x in a])


def _cmp(op, swap=False):
    def f(a, b):
        if isinstance(a, SymBool) and isinstance(b, SymBool):
            e = ~(a ^ b)
            if op == '==':
                return e
            if op == '!=':
                return ~e
        r = core.compare(Sym.of(b), Sym.of(a), op) if swap else core.compare(Sym.of(a), Sym.of(b), op)
        return r
    return f


def hypot(a, b):
    return core._sqrt_nonneg(core.Sym.of(a) * core.Sym.of(a) + core.Sym.of(b) * core.Sym.of(b))


def copysign(a, b):
    a = core.sabs(a)
    return a if bool(b >= 0) else -a


def _isfinite(x):
    x = Sym.of(x)
    return SymBool(FALSE if x.nan else TRUE)


def _isnan(x):
    x = Sym.of(x)
    return SymBool(TRUE if x.nan == 'nan' else FALSE)


def _isinf(x):
    x = Sym.of(x)
    return SymBool(TRUE if x.nan in ('inf', '-inf') else FALSE)


def fmod(a, b):
    q = core.div(a, b)
    return a - b * Sym.const(core.concretise_int(q, 'trunc'))


def _floor(x):
    return Sym.const(core.concretise_int(x, 'floor')) if not x.nan else x


UF = {
    'add': num(lambda a, b: a + b), 'subtract': num(lambda a, b: a - b), 'multiply': num(lambda a, b: a * b),
    'divide': num(core.div), 'true_divide': num(core.div), 'negative': num(lambda a: -a), 'positive': num(lambda a: a),
    'power': num(core.power), 'float_power': num(core.power), 'square': num(lambda a: a * a), 'sqrt': num(core.ssqrt),
    'absolute': num(core.sabs), 'fabs': num(core.sabs), 'sign': num(core.ssign), 'reciprocal': num(lambda a: core.div(core.ONE_S, a)),
    'sin': num(core.ssin), 'cos': num(core.scos), 'tan': num(core.stan), 'arctan2': num(core.satan2), 'arctan': num(core.satan),
    'arccos': num(core.sarccos), 'arcsin': num(core.sarcsin), 'hypot': num(hypot), 'copysign': num(copysign),
    'floor': num(_floor), 'ceil': num(lambda x: -_floor(-x)), 'trunc': num(lambda x: Sym.const(core.concretise_int(x, 'trunc'))),
    'rint': num(lambda x: Sym.const(core.concretise_int(x + core.Fraction(1, 2), 'floor'))),
    'floor_divide': num(core.floordiv), 'remainder': num(lambda a, b: a % b), 'mod': num(lambda a, b: a % b), 'fmod': num(fmod),
    'maximum': num(core.smax), 'minimum': num(core.smin), 'fmax': num(core.smax), 'fmin': num(core.smin),
    'less': _cmp('<'), 'less_equal': _cmp('<='), 'greater': _cmp('<', True), 'greater_equal': _cmp('<=', True),
    'equal': _cmp('=='), 'not_equal': _cmp('!='),
    'logical_and': lambda a, b: SymBool(fand(tof(a), tof(b))), 'logical_or': lambda a, b: SymBool(for_(tof(a), tof(b))),
    'logical_not': lambda a: SymBool(fnot(tof(a))), 'logical_xor': lambda a, b: SymBool(tof(a)) ^ SymBool(tof(b)),
    'bitwise_and': lambda a, b: SymBool(fand(tof(a), tof(b))), 'bitwise_or': lambda a, b: SymBool(for_(tof(a), tof(b))),
    'invert': lambda a: SymBool(fnot(tof(a))), 'bitwise_not': lambda a: SymBool(fnot(tof(a))),
    'bitwise_xor': lambda a, b: SymBool(tof(a)) ^ SymBool(tof(b)),
    'isfinite': _isfinite, 'isnan': _isnan, 'isinf': _isinf, 'conjugate': num(lambda a: a),
    'deg2rad': num(lambda a: a * Sym.var(core.C().pi()) / 180), 'radians': num(lambda a: a * Sym.var(core.C().pi()) / 180),
    'rad2deg': num(lambda a: a * 180 / Sym.var(core.C().pi())), 'degrees': num(lambda a: a * 180 / Sym.var(core.C().pi())),
    'signbit': num(lambda a: a < 0),
}


def ufunc(uf, method, *inputs, **kw):
    name = uf.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    for k in ('dtype', 'casting', 'order', 'subok'):
        kw.pop(k, None)
    if where is not True:
        raise Unsupported('ufunc where=')
    from . import npx
    if method == '__call__':
        if name == 'matmul':
            r = npx.NP.matmul(*inputs)
        elif name == 'divmod':
            r = npx.NP.divmod(*inputs)
        elif name in UF:
            try:
                r = ew(UF[name], *inputs)
            except TypeError:
                if name in ('equal', 'not_equal'):
                    return NotImplemented
                raise
        else:
            raise Unsupported('numpy.%s' % name)
    elif method == 'reduce':
        axis = kw.get('axis', 0)
        fn = {'add': npx.NP.sum, 'multiply': npx.NP.prod, 'logical_and': npx.NP.all, 'logical_or': npx.NP.any,
              'maximum': npx.NP.max, 'minimum': npx.NP.min}.get(name)
        if fn is None:
            raise Unsupported('%s.reduce' % name)
        r = fn(inputs[0], axis=axis)
    elif method == 'outer':
        a, b = toarr(inputs[0]), toarr(inputs[1])
        r = ew(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'accumulate' and name == 'add':
        r = npx.NP.cumsum(inputs[0], axis=kw.get('axis', 0))
    else:
        raise Unsupported('numpy.%s.%s' % (name, method))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArray):
            o[...] = r
            return o
        if isinstance(o, np.ndarray):
            # in-place operation of a numeric array with symbolic values: numpy would keep the dtype
            raise Unsupported('in-place update of a concrete array with a symbolic value')
    return r
