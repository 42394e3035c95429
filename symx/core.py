"""Exact symbolic scalars for executing the toolbox's Python on symbolic inputs.

A value is a rational function num/den of sparse polynomials over Q, kept in normal form modulo
rewriting rules attached to variables (sin^2 -> 1-cos^2, kz^2 -> 1-kx^2-ky^2, r^2 -> radicand, ...).
Formulas over such values are decided by z3 (solve.py)."""
from fractions import Fraction
from math import gcd, isqrt
import math

SH = 8
EM = (1 << SH) - 1
FB = 220                       # fractional bits of the fixed-point witness evaluation
ONE = 1 << FB
ZTOL = 1 << (FB - 150)

import mpmath
_mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
mpmath.mp.prec = FB + 20
PI_FX = int(mpmath.floor(mpmath.pi * ONE))


class Control(BaseException):
    """Path-steering exceptions of the engine; never to be swallowed by the code under test."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class Restart(Control):
    """Re-run the scenario with a finer angle granularity for one atom."""
    def __init__(self, name, d):
        self.name, self.d = name, d


class PathLimit(Control):
    pass


def fx(x):
    x = Fraction(x)
    return (x.numerator << FB) // x.denominator


def fmul(a, b):
    return (a * b) >> FB


class Var:
    __slots__ = ('idx', 'name', 'kind', 'sign', 'lo', 'hi', 'rule', 'ev', 'defs', 'link', 'base', 'mono', 'vals')

    def __init__(self, idx, name, kind):
        self.idx, self.name, self.kind = idx, name, kind
        self.sign = None        # '+' > 0, '0+' >= 0
        self.lo = self.hi = None
        self.rule = None
        self.ev = None          # function(point index) -> fixed point value (None when undefined)
        self.defs = []          # constraint thunks -> formulas
        self.link = None        # for abs variables: polynomial x with value |x|
        self.base = False
        self.mono = 1 << (SH * idx)
        self.vals = None


class Ctx:
    """State of one path execution."""
    cur = None

    def __init__(self):
        self.vars = []
        self.byname = {}
        self.redmask = 0
        self.redcache = {}
        self.trig = {}          # atom monomial -> (d, cos Sym, sin Sym)
        self.sqrtcache = {}
        self.known = {}         # decided formulas: key -> bool
        self.npts = 0
        self.alive = []         # witness points consistent with the path so far
        self.explorer = None
        self.decls = []
        self.gran = {}
        self.counter = {}
        self.noise = 0
        self.notes = set()
        self.cuts = []
        self.guarded = set()    # results of min/max/clip: rounding cannot push them past the bound
        self.unitgroups = []
        self.trigname = {}
        self._mkpi()

    def fresh(self, stem):
        n = self.counter.get(stem, 0)
        self.counter[stem] = n + 1
        return '%s!%d' % (stem, n)

    def newvar(self, name, kind, sign=None, lo=None, hi=None, ev=None):
        v = Var(len(self.vars), name, kind)
        v.sign, v.lo, v.hi, v.ev = sign, lo, hi, ev
        self.vars.append(v)
        self.byname[name] = v
        v.vals = [None] * self.npts
        if ev is not None:
            for i in range(self.npts):
                try:
                    v.vals[i] = ev(i)
                except (TypeError, ZeroDivisionError, ValueError):
                    v.vals[i] = None
        return v

    def setrule(self, v, poly):
        """v^2 -> poly"""
        v.rule = poly
        self.redmask |= (0xFE << (SH * v.idx))

    def _mkpi(self):
        # always variable 0, so that module-level constants survive between paths
        v = self.newvar('PI', 'pi', sign='+', ev=lambda i: PI_FX)
        v.lo = Fraction(31415926535897932384626433832795028841, 10 ** 37)
        v.hi = Fraction(31415926535897932384626433832795028842, 10 ** 37)

    def pi(self):
        return self.vars[0]


def C():
    return Ctx.cur


# ---------------------------------------------------------------- polynomials (dict mono -> coeff)

def _n(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else k * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _n(v)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _n(c * k) for m, c in a.items()}


def _redmono(m):
    """Normal form of a single monomial violating the rules."""
    ctx = Ctx.cur
    r = ctx.redcache.get(m)
    if r is not None:
        return r
    bad = m & ctx.redmask
    top = (bad.bit_length() - 1) // SH
    e = (m >> (SH * top)) & EM
    v = ctx.vars[top]
    rest = m & ~(EM << (SH * top))
    out = {rest | ((e & 1) << (SH * top)): 1}
    q = v.rule
    for _ in range(e // 2):
        out = pmul(out, q)
    ctx.redcache[m] = out
    return out


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m0, c0), = a.items()
        if m0 == 0:
            return pscale(b, c0)
    mask = Ctx.cur.redmask
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    bad = [m for m in r if m & mask]
    if bad:
        todo = [(m, r.pop(m)) for m in bad]
        for m, c in todo:
            if c == 0:
                continue
            for m3, c3 in _redmono(m).items():
                r[m3] = get(m3, 0) + c * c3
    return {m: _n(c) for m, c in r.items() if c != 0}


def pconst(c):
    c = _n(c)
    return {0: c} if c != 0 else {}


def isconst(p):
    return not p or (len(p) == 1 and 0 in p)


def cval(p):
    return p.get(0, 0)


def mono_vars(m):
    i = 0
    out = []
    while m:
        e = m & EM
        if e:
            out.append((i, e))
        m >>= SH
        i += 1
    return out


def poly_vars(p):
    acc = 0
    for m in p:
        acc |= m
    return [i for i, _ in mono_vars(acc)]


def pkey(p):
    return tuple(sorted(p.items()))


def content(p):
    """Positive rational content of a polynomial."""
    g, l = 0, 1
    for c in p.values():
        if type(c) is Fraction:
            g = gcd(g, c.numerator)
            l = l * c.denominator // gcd(l, c.denominator)
        else:
            g = gcd(g, c)
    return Fraction(g, l) if g else Fraction(0)


def mono_gcd(p):
    if not p:
        return {}
    it = iter(p)
    g = mono_vars(next(it))
    g = dict(g)
    for m in it:
        for i in list(g):
            e = (m >> (SH * i)) & EM
            if e < g[i]:
                if e == 0:
                    del g[i]
                else:
                    g[i] = e
        if not g:
            break
    return g


def peval(p, i):
    """Fixed-point value at witness point i (None if undefined)."""
    vs = Ctx.cur.vars
    tot = 0
    for m, c in p.items():
        t = ONE
        for j, e in mono_vars(m):
            x = vs[j].vals[i]
            if x is None:
                return None
            for _ in range(e):
                t = (t * x) >> FB
        if type(c) is Fraction:
            tot += t * c.numerator // c.denominator
        else:
            tot += t * c
    return tot


def psubst(p, idx, q):
    """Substitute variable idx := polynomial q."""
    sh = SH * idx
    groups = {}
    for m, c in p.items():
        e = (m >> sh) & EM
        groups.setdefault(e, {})[m & ~(EM << sh)] = c
    out = {}
    powq = {0: 1}
    cur = 0
    for e in sorted(groups):
        while cur < e:
            powq = pmul(powq, q)
            cur += 1
        out = padd(out, pmul(groups[e], powq))
    return out


def pcoeff_split(p, idx):
    """Return (A, B) with p = A*v + B when v has degree <= 1, else None."""
    sh = SH * idx
    A, B = {}, {}
    for m, c in p.items():
        e = (m >> sh) & EM
        if e == 0:
            B[m] = c
        elif e == 1:
            A[m & ~(EM << sh)] = c
        else:
            return None
    return A, B


def psign_syntactic(p):
    """'+', '0+', '-', '0-' or None from the known signs of variables."""
    if not p:
        return '0'
    vs = Ctx.cur.vars
    best = None
    strict = False
    for m, c in p.items():
        s = 1 if c > 0 else -1
        st = True
        for j, e in mono_vars(m):
            sg = vs[j].sign
            if sg == '+':
                continue
            if e % 2 == 0 or sg == '0+':
                st = False
                continue
            return _pi_only_sign(p)
        if best is None:
            best = s
        elif best != s:
            return _pi_only_sign(p)
        strict = strict or st
    return ('+' if best > 0 else '-') if strict else ('0+' if best > 0 else '0-')


def _pi_only_sign(p):
    pv = Ctx.cur.byname.get('PI')
    if pv is None:
        return None
    for j in poly_vars(p):
        if j != pv.idx:
            return None
    tot = 0
    for m, c in p.items():
        t = ONE
        for j, e in mono_vars(m):
            for _ in range(e):
                t = (t * PI_FX) >> FB
        tot += t * Fraction(c)
    if abs(tot) < ZTOL:
        return None
    return '+' if tot > 0 else '-'


# polynomial square root (exact, in the polynomial ring without rules)

def _lead(p):
    return max(p)


def _psqrt_raw(p, limit=400):
    """q with q*q == p as free polynomials, or None."""
    if not p:
        return {}
    lm = _lead(p)
    lc = Fraction(p[lm])
    if lc < 0:
        return None
    for i, e in mono_vars(lm):
        if e % 2:
            return None
    a, b = isqrt(lc.numerator), isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator:
        return None
    qm = 0
    for i, e in mono_vars(lm):
        qm |= (e // 2) << (SH * i)
    qc = Fraction(a, b)
    q = {qm: _n(qc)}
    rem = dict(p)
    _acc(rem, qm + qm, -qc * qc)
    n = 0
    while rem:
        n += 1
        if n > limit:
            return None
        m = _lead(rem)
        # need m divisible by qm
        if not _divides(qm, m):
            return None
        nm = m - qm
        if nm >= qm:
            return None
        nc = Fraction(rem[m]) / (2 * qc)
        # rem -= 2*q*t + t^2
        for qq, c in list(q.items()):
            _acc(rem, qq + nm, -2 * c * nc)
        _acc(rem, nm + nm, -nc * nc)
        q[nm] = _n(nc)
    return q


def _acc(d, m, c):
    v = d.get(m, 0) + c
    if v == 0:
        d.pop(m, None)
    else:
        d[m] = _n(v)


def _divides(a, b):
    while a:
        if (a & EM) > (b & EM):
            return False
        a >>= SH
        b >>= SH
    return True


def pdiv_exact(p, f, limit=2000):
    """Quotient of an exact free polynomial division p/f, or None."""
    if not p:
        return {}
    lf = _lead(f)
    cf = Fraction(f[lf])
    rem = dict(p)
    q = {}
    n = 0
    while rem:
        n += 1
        if n > limit:
            return None
        m = _lead(rem)
        if not _divides(lf, m):
            return None
        nm = m - lf
        nc = Fraction(rem[m]) / cf
        q[nm] = _n(nc)
        for fm, c in f.items():
            _acc(rem, fm + nm, -c * nc)
    return q


def alternatives(p):
    """Equivalent (mod rules) presentations of p obtained by eliminating another member of a sum-of-squares rule."""
    ctx = Ctx.cur
    outs = [p]
    used = set(poly_vars(p))
    groups = []
    for g in ctx.unitgroups:
        if used & set(g):
            groups.append(g)
    for g in groups[:4]:
        new = []
        for q in outs:
            new.append(q)
            elim = g[-1]
            for alt in g[:-1]:
                # alt^2 -> 1 - sum others^2 (as free polynomial, keeping g[-1]^2)
                r = {}
                ok = False
                for m, c in q.items():
                    e = (m >> (SH * alt)) & EM
                    if e >= 2:
                        ok = True
                        rest = m & ~(EM << (SH * alt))
                        base = {rest | ((e & 1) << (SH * alt)): c}
                        rep = {0: 1}
                        for o in g:
                            if o != alt:
                                rep[2 << (SH * o)] = -1
                        for _ in range(e // 2):
                            nb = {}
                            for m1, c1 in base.items():
                                for m2, c2 in rep.items():
                                    _acc(nb, m1 + m2, c1 * c2)
                            base = nb
                        for m1, c1 in base.items():
                            _acc(r, m1, c1)
                    else:
                        _acc(r, m, c)
                if ok:
                    new.append(r)
        # keep the list small
        seen = {}
        for q in new:
            seen.setdefault(pkey(q), q)
        outs = sorted(seen.values(), key=len)[:12]
    return outs


# ---------------------------------------------------------------- formulas

class F:
    __slots__ = ('op', 'a', 'p', '_key')

    def __init__(self, op, a=(), p=None):
        self.op, self.a, self.p = op, a, p
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ('and', 'or', 'not'):
                self._key = (self.op,) + tuple(x.key() for x in self.a)
            elif self.p is not None:
                self._key = (self.op, pkey(self.p))
            else:
                self._key = (self.op,)
        return self._key

    def __repr__(self):
        if self.p is not None:
            return '%s %s 0' % (pstr(self.p), self.op)
        if self.op in ('T', 'F'):
            return self.op
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


TRUE, FALSE = F('T'), F('F')


def _norm_rel(p):
    c = content(p)
    if c not in (0, 1):
        p = pscale(p, 1 / c)
    return p


def rel(p, op):
    """p op 0 with op in < <= == !="""
    if isconst(p):
        v = cval(p)
        r = {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op]
        return TRUE if r else FALSE
    s = psign_syntactic(p)
    if s == '+':
        return TRUE if op == '!=' else FALSE
    if s == '-':
        return FALSE if op == '==' else TRUE
    if s == '0+':
        if op == '<':
            return FALSE
        if op == '<=':
            op = '=='
    elif s == '0-':
        if op == '<=':
            return TRUE
        if op == '<':
            op = '!='
    p = _norm_rel(p)
    if op in ('==', '!='):
        if p[max(p)] < 0:
            p = pscale(p, -1)
    return F(op, p=p)


def fnot(f):
    if f.op == 'T':
        return FALSE
    if f.op == 'F':
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == '<':
        return rel(pscale(f.p, -1), '<=')
    if f.op == '<=':
        return rel(pscale(f.p, -1), '<')
    if f.op == '==':
        return F('!=', p=f.p)
    if f.op == '!=':
        return F('==', p=f.p)
    if f.op == 'and':
        return for_(*[fnot(x) for x in f.a])
    if f.op == 'or':
        return fand(*[fnot(x) for x in f.a])
    raise AssertionError(f.op)


def fand(*fs):
    out = []
    for f in fs:
        if f.op == 'F':
            return FALSE
        if f.op == 'T':
            continue
        if f.op == 'and':
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return F('and', tuple(out))


def for_(*fs):
    out = []
    for f in fs:
        if f.op == 'T':
            return TRUE
        if f.op == 'F':
            continue
        if f.op == 'or':
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return F('or', tuple(out))


def feval(f, i):
    """Truth at witness point i: True/False/None."""
    if f.op == 'T':
        return True
    if f.op == 'F':
        return False
    if f.op == 'and':
        r = True
        for x in f.a:
            v = feval(x, i)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if f.op == 'or':
        r = False
        for x in f.a:
            v = feval(x, i)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if f.op == 'not':
        v = feval(f.a[0], i)
        return None if v is None else not v
    v = peval(f.p, i)
    if v is None:
        return None
    if abs(v) < ZTOL:
        v = 0
    return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[f.op]


def fvars(f, acc=None):
    if acc is None:
        acc = set()
    if f.p is not None:
        acc.update(poly_vars(f.p))
    for x in f.a:
        fvars(x, acc)
    return acc


def pstr(p, maxn=12):
    if not p:
        return '0'
    vs = Ctx.cur.vars
    ts = []
    for m, c in sorted(p.items(), reverse=True)[:maxn]:
        t = '*'.join(vs[i].name + ('^%d' % e if e > 1 else '') for i, e in mono_vars(m))
        ts.append(('%s*%s' % (c, t) if c != 1 else t) if t else str(c))
    s = ' + '.join(ts)
    if len(p) > maxn:
        s += ' + ...(%d terms)' % len(p)
    return s


class SymBool:
    __slots__ = ('f',)
    __array_priority__ = 1000
    shape = ()
    ndim = 0

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if self.f.op == 'T':
            return True
        if self.f.op == 'F':
            return False
        return Ctx.cur.explorer.decide(self.f)

    def __and__(self, o):
        if hasattr(o, '__len__'):
            return NotImplemented
        return SymBool(fand(self.f, tof(o)))
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, '__len__'):
            return NotImplemented
        return SymBool(for_(self.f, tof(o)))
    __ror__ = __or__

    def __xor__(self, o):
        g = tof(o)
        return SymBool(for_(fand(self.f, fnot(g)), fand(fnot(self.f), g)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(fnot(self.f))

    def __eq__(self, o):
        return ~(self ^ o)

    def __ne__(self, o):
        return self ^ o

    __hash__ = None

    def all(self, *a, **k):
        return self
    any = all

    def item(self):
        return self

    def _num(self):
        return Sym.const(1 if bool(self) else 0)

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SymBool(%r)' % (self.f,)


def tof(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, F):
        return x
    if isinstance(x, Sym):
        return (x != 0).f
    if hasattr(x, 'item') and getattr(x, 'size', 2) == 1:
        return tof(x.item())
    return TRUE if bool(x) else FALSE


# ---------------------------------------------------------------- scalars

def tofrac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _n(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return None
        return _n(Fraction(x))
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return int(x)
        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.floating):
            return tofrac(float(x))
    except ImportError:
        pass
    raise TypeError('not a number: %r' % (x,))


_PI_MULTS = {}


class Sym:
    """num / prod(den factors). den: dict key -> (poly, exponent); keys are canonical."""
    __slots__ = ('num', 'den', 'nan')
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, num, den=None, nan=False):
        self.num, self.den, self.nan = num, den or {}, nan

    # -------- constructors
    @staticmethod
    def const(c):
        return Sym(pconst(c))

    @staticmethod
    def var(v):
        return Sym({v.mono: 1})

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, str) or x is None:
            raise TypeError('not a number: %r' % (x,))
        if hasattr(x, 'ndim') and getattr(x, 'size', 1) == 1 and hasattr(x, 'reshape') and x.ndim > 0:
            return Sym.of(x.reshape(-1)[0])
        if isinstance(x, complex):
            raise Unsupported('complex number')
        f = tofrac(x)
        if f is None:
            if isinstance(x, float) and math.isinf(x):
                return INF if x > 0 else -INF
            return NAN
        if type(f) is Fraction and isinstance(x, float):
            # multiples of pi written as float literals by imported helper code
            m = _PI_MULTS.get(x)
            if m is not None:
                return Sym({C().pi().mono: m})
        return Sym(pconst(f))

    # -------- predicates
    def isconst(self):
        return not self.nan and not self.den and isconst(self.num)

    def cval(self):
        return cval(self.num)

    def iszero(self):
        return not self.nan and not self.num

    # -------- helpers
    def denpoly(self):
        p = {0: 1}
        for f, e in self.den.values():
            for _ in range(e):
                p = pmul(p, f)
        return p

    def _cancel(self):
        if self.nan:
            return self
        if not self.num:
            self.den = {}
            return self
        if not self.den:
            return self
        num = self.num
        g = None
        for k in list(self.den):
            f, e = self.den[k]
            if len(f) == 1:
                (m, c), = f.items()
                (i, _), = mono_vars(m)
                if g is None:
                    g = mono_gcd(num)
                n = min(g.get(i, 0), e)
                if n:
                    sub = n << (SH * i)
                    num = {mm - sub: c2 for mm, c2 in num.items()}
                    g = None
                    e -= n
                rad = Ctx.cur.vars[i].rule
                if e and rad is not None:
                    # r in the denominator with r^2 = rad
                    if isconst(rad):
                        for _ in range(e):
                            num = pscale(pmul(num, {m: 1}), Fraction(1) / cval(rad))
                        e = 0
                        g = None
                    elif len(rad) <= 40 and len(num) <= 400:
                        q = pdiv_exact(num, rad, 200)
                        if q is not None:
                            num = q if e >= 2 else pmul(q, {m: 1})
                            e = max(e - 2, 0)
                            g = None
                if e:
                    self.den[k] = (f, e)
                else:
                    del self.den[k]
            else:
                while e and len(num) <= 600:
                    q = pdiv_exact(num, f, 300) if len(num) >= len(f) else None
                    if q is None:
                        break
                    num = q
                    e -= 1
                    g = None
                if e:
                    self.den[k] = (f, e)
                else:
                    del self.den[k]
        self.num = num
        return self

    # -------- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        if self.nan or o.nan:
            return _infadd(self, o)
        if not o.num:
            return self
        if not self.num:
            return o
        if not self.den and not o.den:
            return Sym(padd(self.num, o.num))
        den = dict(self.den)
        fa, fb = {0: 1}, {0: 1}
        for k, (f, e) in o.den.items():
            if k in den:
                e0 = den[k][1]
                if e > e0:
                    for _ in range(e - e0):
                        fa = pmul(fa, f)
                    den[k] = (f, e)
                elif e0 > e:
                    for _ in range(e0 - e):
                        fb = pmul(fb, f)
            else:
                den[k] = (f, e)
                for _ in range(e):
                    fa = pmul(fa, f)
        for k, (f, e) in self.den.items():
            if k not in o.den:
                for _ in range(e):
                    fb = pmul(fb, f)
        return Sym(padd(pmul(self.num, fa), pmul(o.num, fb)), den)._cancel()
    __radd__ = __add__

    def __neg__(self):
        if self.nan:
            return NAN if self.nan == 'nan' else (INF if self.nan == '-inf' else NINF)
        return Sym(pscale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        if self.nan or o.nan:
            return _infmul(self, o)
        if not self.num or not o.num:
            return ZERO
        if not self.den and not o.den:
            return Sym(pmul(self.num, o.num))
        if isconst(o.num) and not o.den:
            return Sym(pscale(self.num, cval(o.num)), self.den)
        if isconst(self.num) and not self.den:
            return Sym(pscale(o.num, cval(self.num)), o.den)
        den = dict(self.den)
        for k, (f, e) in o.den.items():
            den[k] = (f, e + (den[k][1] if k in den else 0))
        return Sym(pmul(self.num, o.num), den)._cancel()
    __rmul__ = __mul__

    def inv(self):
        """1/self, assuming nonzero."""
        num = self.denpoly()
        p = self.num
        c = content(p)
        g = mono_gcd(p)
        if p[max(p)] < 0:
            c = -c
        p = pscale(p, 1 / c)
        den = {}
        if g:
            sub = 0
            for i, e in g.items():
                sub |= e << (SH * i)
                v = Ctx.cur.vars[i]
                den[pkey({v.mono: 1})] = ({v.mono: 1}, e)
            p = {m - sub: cc for m, cc in p.items()}
        if not (len(p) == 1 and p.get(0) == 1):
            # perfect-square-free handling is not needed for soundness
            den[pkey(p)] = (p, 1)
        return Sym(pscale(num, 1 / c), den)._cancel()

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return div(self, o)
    __div__ = __truediv__

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return div(o, self)

    def __pow__(self, n):
        n = _coerce(n)
        if n is NotImplemented:
            return NotImplemented
        return power(self, n)

    def __rpow__(self, b):
        return power(_coerce(b), self)

    def __abs__(self):
        return sabs(self)

    def __floordiv__(self, o):
        return floordiv(self, _coerce(o))

    def __rfloordiv__(self, o):
        return floordiv(_coerce(o), self)

    def __mod__(self, o):
        o = _coerce(o)
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        return _coerce(o) % self

    def __divmod__(self, o):
        o = _coerce(o)
        q = floordiv(self, o)
        return q, self - q * o

    def __rdivmod__(self, o):
        return divmod(_coerce(o), self)

    # -------- comparison
    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return compare(o, self, '<')

    def __ge__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return compare(o, self, '<=')

    def __eq__(self, o):
        try:
            return compare(self, o, '==')
        except TypeError:
            return False

    def __ne__(self, o):
        try:
            return compare(self, o, '!=')
        except TypeError:
            return True

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -------- conversions
    def __float__(self):
        if self.isconst():
            return float(self.cval())
        if self.nan:
            return float('nan')
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        return concretise_int(self, 'trunc')
    __trunc__ = __int__

    def __index__(self):
        if self.isconst() and Fraction(self.cval()).denominator == 1:
            return int(self.cval())
        raise TypeError('symbolic value used as an index')

    def __round__(self, nd=None):
        return sround(self, nd or 0)

    def __floor__(self):
        return concretise_int(self, 'floor')

    def __ceil__(self):
        return concretise_int(self, 'ceil')

    # -------- numpy scalar look-alike
    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('sin', 'cos', 'tan', 'sqrt', 'arctan2', 'conjugate', 'rint', 'exp', 'log'):
            raise AttributeError(name)
        # array methods of numpy scalars
        from . import arr
        return getattr(arr.toarr(self), name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        return npx.array_function(func, args, kwargs)

    def __repr__(self):
        if self.nan:
            return 'Sym(%s)' % self.nan
        if self.den:
            return '(%s)/(%s)' % (pstr(self.num), ' * '.join('(%s)^%d' % (pstr(f), e) for f, e in self.den.values()))
        return pstr(self.num)

    def __format__(self, spec):
        return repr(self)


NAN = Sym({}, None, 'nan')
INF = Sym({}, None, 'inf')
NINF = Sym({}, None, '-inf')
ZERO = Sym({})
ONE_S = Sym({0: 1})


def _infadd(a, b):
    if a.nan == 'nan' or b.nan == 'nan':
        return NAN
    if a.nan and b.nan:
        return a if a.nan == b.nan else NAN
    return a if a.nan else b


def _infmul(a, b):
    if a.nan == 'nan' or b.nan == 'nan':
        return NAN
    s = 1
    for x in (a, b):
        if x.nan == '-inf':
            s = -s
        elif not x.nan:
            if bool(x == 0):
                return NAN
            if bool(x < 0):
                s = -s
    return INF if s > 0 else NINF


def _coerce(o):
    if isinstance(o, Sym):
        return o
    import numpy as np
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return Sym.of(o.item())
        return NotImplemented
    if isinstance(o, (list, tuple, str, dict)) or o is None:
        return NotImplemented
    try:
        return Sym.of(o)
    except TypeError:
        return NotImplemented


def div(a, b):
    if a.nan or b.nan:
        if b.nan in ('inf', '-inf') and not a.nan:
            return ZERO
        if a.nan in ('inf', '-inf') and not b.nan:
            return _infmul(a, b) if not bool(b == 0) else NAN
        return NAN
    if b.isconst():
        c = b.cval()
        if c == 0:
            return _divzero(a)
        return Sym(pscale(a.num, Fraction(1) / c), a.den)
    z = rel(b.num, '==')
    if z.op != 'F' and Ctx.cur.explorer.decide(z):
        return _divzero(a)
    if a.iszero():
        return ZERO
    return a * b.inv()


def _divzero(a):
    C().notes.add('division by zero')
    if bool(a == 0):
        return NAN
    return INF if bool(a > 0) else NINF


def relsym(d, op):
    """Formula d op 0 for a Sym d (denominator assumed nonzero)."""
    if d.nan:
        if d.nan == 'nan':
            return TRUE if op == '!=' else FALSE
        neg = d.nan == '-inf'
        return {'<': TRUE if neg else FALSE, '<=': TRUE if neg else FALSE, '==': FALSE, '!=': TRUE}[op]
    p = d.num
    if op in ('<', '<='):
        for f, e in d.den.values():
            if e % 2:
                s = psign_syntactic(f)
                if s in ('+', '0+'):
                    continue
                if s in ('-', '0-'):
                    p = pscale(p, -1)
                    continue
                p = pmul(p, f)
    return rel(p, op)


def compare(a, b, op):
    b = _coerce(b)
    if b is NotImplemented:
        return NotImplemented
    a = _coerce(a)
    if a.nan == 'nan' or b.nan == 'nan':
        return SymBool(TRUE if op == '!=' else FALSE)
    if a.nan and b.nan:
        x = {'inf': 1, '-inf': -1}
        u, v = x[a.nan], x[b.nan]
        return SymBool(TRUE if {'<': u < v, '<=': u <= v, '==': u == v, '!=': u != v}[op] else FALSE)
    return SymBool(relsym(a - b, op))


def power(a, n):
    if n.isconst():
        e = Fraction(n.cval())
        if e.denominator == 1:
            e = int(e)
            if e < 0:
                return div(ONE_S, power(a, Sym.const(-e)))
            r = ONE_S
            for _ in range(e):
                r = r * a
            return r
        if e == Fraction(1, 2):
            return ssqrt(a)
        if e == Fraction(-1, 2):
            return div(ONE_S, ssqrt(a))
        if e.denominator == 2:
            return power(ssqrt(a), Sym.const(e.numerator))
    raise Unsupported('symbolic power')


# ---------------------------------------------------------------- functions

def known_sign(p):
    """Sign of polynomial p if syntactically evident or already decided on this path."""
    s = psign_syntactic(p)
    if s is not None:
        return s
    k = C().known
    for op, val, res in (('<', True, '-'), ('<', False, '0+'), ('<=', True, '0-'), ('<=', False, '+')):
        f = rel(p, op)
        if f.p is not None and k.get(f.key()) is val:
            return res
    q = pscale(p, -1)
    for op, val, res in (('<', True, '+'), ('<', False, '0-'), ('<=', True, '0+'), ('<=', False, '-')):
        f = rel(q, op)
        if f.p is not None and k.get(f.key()) is val:
            return res
    return None


def sabs(x):
    x = Sym.of(x)
    if x.nan:
        return INF if x.nan != 'nan' else NAN
    if x.isconst():
        return Sym.const(abs(x.cval()))
    num = pabs(x.num)
    den = ONE_S
    for f, e in x.den.values():
        fp = pabs(f) if e % 2 else Sym(f)
        for _ in range(e):
            den = den * fp
    if not x.den:
        return num
    r = num
    for f, e in x.den.values():
        fp = pabs(f) if e % 2 else Sym(f)
        for _ in range(e):
            r = r * fp.inv()
    return r


def pabs(p):
    """|p| as a Sym; a fresh nonnegative variable with a^2 = p^2 unless the sign is known."""
    s = known_sign(p)
    if s in ('+', '0+', '0'):
        return Sym(p)
    if s in ('-', '0-'):
        return Sym(pscale(p, -1))
    c = content(p)
    q = pscale(p, 1 / c)
    if q[max(q)] < 0:
        q = pscale(q, -1)
    ctx = C()
    # split off monomial factors with known sign / separate absolute values
    g = mono_gcd(q)
    out = Sym.const(c)
    if g:
        sub = 0
        for i, e in g.items():
            sub |= e << (SH * i)
            v = ctx.vars[i]
            for _ in range(e):
                out = out * (Sym.var(v) if v.sign or e % 2 == 0 else _absvar({v.mono: 1}))
        q = {m - sub: cc for m, cc in q.items()}
        if len(q) == 1 and 0 in q:
            return out * Sym(pconst(abs(q[0])))
        s = known_sign(q)
        if s in ('+', '0+'):
            return out * Sym(q)
        if s in ('-', '0-'):
            return out * Sym(pscale(q, -1))
    return out * _absvar(q)


def _absvar(q):
    ctx = C()
    k = ('abs', pkey(q))
    v = ctx.sqrtcache.get(k)
    if v is None:
        def ev(i):
            return abs(peval(q, i))
        v = ctx.newvar(ctx.fresh('abs'), 'abs', sign='0+', ev=ev)
        v.link = q
        ctx.setrule(v, pmul(q, q))
        a = {v.mono: 1}
        v.defs = [for_(F('==', p=padd(a, q, -1)), F('==', p=padd(a, q)))]
        ctx.sqrtcache[k] = v
    return Sym.var(v)


def ssqrt(x, strict=False):
    """sqrt; a negative argument gives nan (numpy) or ValueError (math: strict)."""
    x = Sym.of(x)
    if x.nan:
        return x if x.nan != '-inf' else NAN
    neg = relsym(x, '<')
    ctx = C()
    if ctx.noise and not _guarded(x) and (neg.op not in ('T', 'F') or (neg.op == 'F' and (not x.isconst() or abs(x.cval()) < 1e-9))) \
            and neg.key() not in ctx.known:
        if ctx.explorer.noisy('sqrt', x, lambda y: relsym(y, '<')):
            if strict:
                raise ValueError('math domain error')
            return NAN
    if neg.op == 'T' or (neg.op != 'F' and ctx.explorer.decide(neg)):
        ctx.notes.add('sqrt of a negative number')
        if strict:
            raise ValueError('math domain error')
        return NAN
    # bring odd denominator factors into the numerator
    num = x.num
    outden = ONE_S
    for f, e in x.den.values():
        if e % 2:
            num = pmul(num, f)
            h = (e + 1) // 2
        else:
            h = e // 2
        fa = pabs(f)
        for _ in range(h):
            outden = outden * fa
    r = psqrt(num)
    if outden.isconst():
        return r
    return r * outden.inv()


def psqrt(p):
    """sqrt of a polynomial known to be >= 0."""
    if not p:
        return ZERO
    ctx = C()
    if isconst(p):
        c = Fraction(cval(p))
        # squarefree part of n*d
        n = c.numerator * c.denominator
        out = 1
        m = n
        s = isqrt(m)
        if s * s == m:
            return Sym.const(Fraction(s, c.denominator))
        k = 2
        rest = m
        while k * k <= rest and k < 2000:
            while rest % (k * k) == 0:
                rest //= k * k
                out *= k
            k += 1
        coef = Fraction(out, c.denominator)
        return Sym.const(coef) * _sqrtvar(pconst(rest))
    # content
    ct = content(p)
    q = pscale(p, 1 / ct)
    a, b = ct.numerator, ct.denominator
    sq = 1
    n = a * b
    k = 2
    while k * k <= n and k < 200:
        while n % (k * k) == 0:
            n //= k * k
            sq *= k
        k += 1
    s = isqrt(n)
    if s * s == n:
        sq *= s
        n = 1
    coef = Sym.const(Fraction(sq, b))
    q = pscale(q, n)
    alts = alternatives(q)
    best = None
    for al in alts:
        r = _psqrt_raw(al) if n == 1 else None
        if r is not None:
            return coef * pabs(_reduce(r))
        if n != 1:
            r = _psqrt_raw(pscale(al, Fraction(1, n)))
            if r is not None:
                return coef * psqrt(pconst(n)) * pabs(_reduce(r))
    # monomial square factors
    for al in alts:
        g = mono_gcd(al)
        g2 = {i: e // 2 for i, e in g.items() if e >= 2}
        if g2:
            sub = mono = 0
            for i, e in g2.items():
                sub |= (2 * e) << (SH * i)
                mono |= e << (SH * i)
            restp = _reduce({m - sub: c for m, c in al.items()})
            return coef * pabs({mono: 1}) * psqrt(restp)
    return coef * _sqrtvar(q)


def _reduce(p):
    mask = Ctx.cur.redmask
    if not any(m & mask for m in p):
        return p
    r = {}
    for m, c in p.items():
        if m & mask:
            for m2, c2 in _redmono(m).items():
                _acc(r, m2, c * c2)
        else:
            _acc(r, m, c)
    return r


def _sqrtvar(q):
    ctx = C()
    k = ('sqrt', pkey(q))
    v = ctx.sqrtcache.get(k)
    if v is None:
        def ev(i):
            x = peval(q, i)
            if x < 0:
                if x > -ZTOL:
                    x = 0
                else:
                    return None
            if x < ZTOL:
                x = 0
            return isqrt(x << FB)
        s = known_sign(q)
        v = ctx.newvar(ctx.fresh('sqrt'), 'sqrt', sign='+' if s == '+' else '0+', ev=ev)
        ctx.setrule(v, q)
        v.defs = [F('==', p={2 << (SH * v.idx): 1, **{m: -c for m, c in q.items()}})]
        ctx.sqrtcache[k] = v
    return Sym.var(v)


# ---------------------------------------------------------------- angles

def declare_trig(mono, d, cs, sn):
    C().trig[mono] = (d, cs, sn)


def _unitpair(name, evc, evs):
    """cos/sin variable pair with the rule s^2 -> 1-c^2."""
    ctx = C()
    c = ctx.newvar(name + '.c', 'cos', ev=evc)
    s = ctx.newvar(name + '.s', 'sin', ev=evs)
    for v in (c, s):
        v.lo, v.hi = Fraction(-1), Fraction(1)
    ctx.setrule(s, {0: 1, 2 << (SH * c.idx): -1})
    s.defs = [F('==', p={2 << (SH * s.idx): 1, 2 << (SH * c.idx): 1, 0: -1})]
    ctx.unitgroups.append([c.idx, s.idx])
    return c, s


def _fxcos(v):
    return int(mpmath.floor(mpmath.cos(mpmath.mpf(v) / ONE) * ONE))


def _fxsin(v):
    return int(mpmath.floor(mpmath.sin(mpmath.mpf(v) / ONE) * ONE))


def atom_trig(m):
    """(d, cos, sin) of the atom monomial m divided by d."""
    ctx = C()
    t = ctx.trig.get(m)
    if t is None:
        nm = 'ang(' + pstr({m: 1}) + ')'
        d = ctx.gran.get(nm, 1)

        def val(i):
            return peval({m: 1}, i) // d
        c, s = _unitpair(nm + ('/%d' % d if d > 1 else ''), lambda i: _fxcos(val(i)), lambda i: _fxsin(val(i)))
        t = (d, Sym.var(c), Sym.var(s))
        ctx.trig[m] = t
        ctx.trigname[m] = nm
    return t


def sincos(x):
    """(sin, cos) of a Sym angle, by angle addition over its atoms."""
    x = Sym.of(x)
    if x.nan:
        return NAN, NAN
    ctx = C()
    if x.den:
        # treat as an opaque angle: fresh atom equal to x
        v = opaque_angle(x)
        x = Sym.var(v)
    pim = ctx.pi().mono
    cs, sn = ONE_S, ZERO
    for m in sorted(x.num):
        q = Fraction(x.num[m])
        if m == 0:
            if q == 0:
                continue
            c1, s1 = _const_trig(q)
        elif m == pim:
            c1, s1 = _pi_trig(q)
        else:
            d, bc, bs = atom_trig(m)
            n = q * d
            if n.denominator != 1:
                nm = ctx.trigname.get(m)
                if nm is not None:
                    nd = d * n.denominator
                    if nd > 24:
                        # sin/cos of an odd multiple (e.g. a float factor): opaque
                        v = opaque_angle(Sym({m: q}))
                        d, bc, bs = atom_trig(v.mono)
                        n = Fraction(d)
                    else:
                        raise Restart(nm, nd)
                else:
                    if n.denominator == 2:
                        bc, bs = _half(m, d, bc, bs)
                        n = n * 2
                    else:
                        v = opaque_angle(Sym({m: q}))
                        d, bc, bs = atom_trig(v.mono)
                        n = Fraction(d)
            c1, s1 = _multiple(bc, bs, int(n))
        cs, sn = cs * c1 - sn * s1, sn * c1 + cs * s1
    return sn, cs


def _half(m, d, bc, bs):
    """cos/sin of half of a derived angle whose value lies in (-pi, pi] (or [0, pi])."""
    ctx = C()
    k = ('half', m, d)
    r = ctx.sqrtcache.get(k)
    if r is None:
        v = [x for x in ctx.vars if x.mono == m]
        if not v or d != 1 or v[0].kind != 'dangle':
            raise Unsupported('half of a derived angle')
        ch = ssqrt((ONE_S + bc) / 2)
        if bool(ch == 0):
            r = (ZERO, ONE_S)
        else:
            r = (ch, bs / (2 * ch))
        ctx.sqrtcache[k] = r
    return r


def opaque_angle(x):
    ctx = C()
    k = ('opaque', pkey(x.num), tuple(sorted((kk, e) for kk, (f, e) in x.den.items())))
    v = ctx.sqrtcache.get(k)
    if v is None:
        v = ctx.newvar(ctx.fresh('opq'), 'angle', ev=lambda i: seval(x, i))
        v.defs = [relsym(Sym.var(v) - x, '==')]
        ctx.sqrtcache[k] = v
    return v


def seval(x, i):
    n = peval(x.num, i)
    for f, e in x.den.values():
        d = peval(f, i)
        if n is None or d is None or abs(d) < ZTOL:
            return None
        for _ in range(e):
            n = (n << FB) // d
    return n


def _multiple(c, s, n):
    if n < 0:
        c1, s1 = _multiple(c, s, -n)
        return c1, -s1
    rc, rs = ONE_S, ZERO
    bc, bs = c, s
    while n:
        if n & 1:
            rc, rs = rc * bc - rs * bs, rs * bc + rc * bs
        n >>= 1
        if n:
            bc, bs = bc * bc - bs * bs, 2 * bc * bs
    return rc, rs


def _const_trig(q):
    ctx = C()
    k = ('ctrig', q)
    r = ctx.sqrtcache.get(k)
    if r is None:
        v = fx(q)
        c, s = _unitpair('trig(%s)' % q, lambda i: _fxcos(v), lambda i: _fxsin(v))
        import math as _m
        for var, val in ((c, _m.cos(q)), (s, _m.sin(q))):
            var.lo, var.hi = Fraction(val) - Fraction(1, 10 ** 12), Fraction(val) + Fraction(1, 10 ** 12)
            if val > 1e-9:
                var.sign = '+'
        r = (Sym.var(c), Sym.var(s))
        ctx.sqrtcache[k] = r
    return r


def _pi_trig(q):
    q = q % 2
    n = q * 12
    if n.denominator != 1:
        ctx = C()
        k = ('ptrig', q)
        r = ctx.sqrtcache.get(k)
        if r is None:
            v = PI_FX * q.numerator // q.denominator
            c, s = _unitpair('trigpi(%s)' % q, lambda i: _fxcos(v), lambda i: _fxsin(v))
            r = (Sym.var(c), Sym.var(s))
            ctx.sqrtcache[k] = r
        return r
    n = int(n)

    def c12(k):
        k = k % 24
        if k > 12:
            k = 24 - k
        sg = 1
        if k > 6:
            k = 12 - k
            sg = -1
        if k == 0:
            v = ONE_S
        elif k == 6:
            v = ZERO
        elif k == 4:
            v = Sym.const(Fraction(1, 2))
        elif k == 3:
            v = psqrt(pconst(2)) / 2
        elif k == 2:
            v = psqrt(pconst(3)) / 2
        elif k == 1:
            v = psqrt(pconst(2)) * (psqrt(pconst(3)) + 1) / 4
        else:
            v = psqrt(pconst(2)) * (psqrt(pconst(3)) - 1) / 4
        return v if sg > 0 else -v
    return c12(n), c12(n - 6)


def ssin(x):
    return sincos(x)[0]


def scos(x):
    return sincos(x)[1]


def stan(x):
    s, c = sincos(x)
    return div(s, c)


def _dangle(stem, cs, sn, lo, hi, lopi, hipi):
    """A derived angle with known cosine and sine, in [lo*pi, hi*pi]."""
    ctx = C()

    def ev(i):
        a, b = seval(sn, i), seval(cs, i)
        if abs(a) < ZTOL:
            a = 0
        if abs(b) < ZTOL:
            b = 0
        return int(mpmath.floor(mpmath.atan2(mpmath.mpf(a) / ONE, mpmath.mpf(b) / ONE) * ONE))
    v = ctx.newvar(ctx.fresh(stem), 'dangle', ev=ev)
    V = Sym.var(v)
    P = Sym.var(ctx.pi())
    ctx.trig[v.mono] = (1, cs, sn)
    v.defs = [relsym(Sym.const(lo) * P - V, '<' if lopi else '<='), relsym(V - Sym.const(hi) * P, '<' if hipi else '<=')]
    if lo == 0:
        v.sign = '0+'
    # links between the value and the signs of sin / cos
    s_pos, s_neg = relsym(-sn, '<'), relsym(sn, '<')
    c_pos, c_neg = relsym(-cs, '<'), relsym(cs, '<')
    v_pos, v_neg = relsym(-V, '<'), relsym(V, '<')

    def imp(a, b):
        return for_(fnot(a), b)
    defs = [imp(s_pos, v_pos), imp(s_neg, v_neg)]
    # |sin a| <= |a|
    if lo == 0:
        defs.append(relsym(sn - V, '<='))
    else:
        defs.append(for_(v_neg, relsym(sn - V, '<=')))
        defs.append(for_(v_pos, relsym(V - sn, '<=')))
    if lo == -1:
        defs.append(imp(fand(fnot(s_pos), fnot(s_neg), c_pos), relsym(V, '==')))
        defs.append(imp(fand(fnot(s_pos), fnot(s_neg), c_neg), relsym(V - P, '==')))
        defs.append(imp(s_pos, relsym(V - P, '<')))
    elif lo == 0:
        defs.append(imp(fand(fnot(s_pos), c_pos), relsym(V, '==')))
        defs.append(imp(fand(fnot(s_pos), c_neg), relsym(V - P, '==')))
    h = P / 2
    defs.append(imp(c_pos, fand(relsym(V - h, '<'), relsym(-V - h, '<'))))
    defs.append(imp(c_neg, for_(relsym(h - V, '<'), relsym(h + V, '<'))))
    if lo == Fraction(-1, 2):
        defs.append(imp(fand(fnot(s_pos), fnot(s_neg)), relsym(V, '==')))
    v.defs += [f for f in defs if f.op != 'T']
    return V


def _recognise(cs, sn, lo):
    """An angle of the inputs (with a stated range) whose cosine is cs (and sine sn), when its value lies in the result range."""
    ctx = C()
    if cs.den or (sn is not None and sn.den):
        return None
    P = Sym.var(ctx.pi())
    for m, (d, bc, bs) in list(ctx.trig.items()):
        vs = [x for x in ctx.vars if x.mono == m]
        if not vs or vs[0].kind != 'angle' or (vs[0].lo is None and vs[0].hi is None):
            continue
        V = Sym.var(vs[0])
        for n in range(1, 2 * d + 1):
            if d % n and n % d:
                continue
            c, s = _multiple(bc, bs, n)
            a = V * Fraction(n, d)
            if sn is None:
                opts = [(c, a), (c, -a), (-c, P - a), (-c, P + a)]
                for ce, e in opts:
                    if (cs - ce).iszero():
                        f = fand(relsym(-e, '<='), relsym(e - P, '<='))
                        if f.op == 'T' or (f.op != 'F' and ctx.explorer.decide(f)):
                            return e
            else:
                h = P / 2
                opts = [(c, s, a), (c, -s, -a), (-c, -s, a - P), (-c, -s, a + P), (-c, s, P - a), (-c, s, -a - P), (s, c, h - a), (-s, c, h + a),
                        (s, -c, a - h), (-s, -c, -h - a)]
                for ce, se, e in opts:
                    if (cs - ce).iszero() and (sn - se).iszero():
                        f = fand(relsym(-P - e, '<'), relsym(e - P, '<='))
                        if f.op == 'T' or (f.op != 'F' and ctx.explorer.decide(f)):
                            return e
    return None


def _memo(fn):
    """The same function of identical arguments on one path is the same value."""
    def g(*args, **kw):
        ctx = C()
        if ctx.noise or kw:
            return fn(*args, **kw)
        args = [Sym.of(a) if not isinstance(a, bool) else a for a in args]
        if any(isinstance(a, Sym) and a.nan for a in args):
            return fn(*args)
        key = (fn.__name__,) + tuple(_skey(a) if isinstance(a, Sym) else a for a in args)
        memo = ctx.__dict__.setdefault('memo', {})
        if key not in memo:
            memo[key] = fn(*args)
        return memo[key]
    g.__name__ = fn.__name__
    return g


@_memo
def satan2(y, x):
    y, x = Sym.of(y), Sym.of(x)
    if y.nan or x.nan:
        return NAN
    if y.iszero() or x.iszero():
        # axis-aligned
        if y.iszero() and x.iszero():
            return ZERO
        if y.iszero():
            return ZERO if bool(x >= 0) else Sym.var(C().pi())
        h = Sym.var(C().pi()) / 2
        if bool(y > 0):
            return h
        return ZERO if bool(y == 0) else -h
    r = ssqrt(x * x + y * y)
    z = relsym(r, '==')
    if z.op != 'F' and C().explorer.decide(z):
        return ZERO
    if r.isconst() and r.cval() == 1:
        cs, sn = x, y
    else:
        ri = r.inv()
        cs, sn = x * ri, y * ri
    ctx = C()
    e = _recognise(cs, sn, -1)
    if e is not None:
        return e
    if relsym(y, '<').op == 'F':
        return _dangle('atan2', cs, sn, 0, 1, False, False)
    return _dangle('atan2', cs, sn, -1, 1, True, False)


@_memo
def satan(x):
    x = Sym.of(x)
    if x.nan:
        return NAN
    r = ssqrt(ONE_S + x * x)
    ri = r.inv()
    return _dangle('atan', ri, x * ri, Fraction(-1, 2), Fraction(1, 2), True, True)


def _domain(fn, x, strict):
    """True when |x| <= 1 on this path."""
    ctx = C()
    one = ONE_S
    if ctx.noise and not _guarded(x) and relsym(one - x, '<').key() not in ctx.known and \
            (not x.isconst() or abs(abs(x.cval()) - 1) < 1e-9):
        if ctx.explorer.noisy(fn, x, lambda y: for_(relsym(one - y, '<'), relsym(y + one, '<'))):
            if strict:
                raise ValueError('math domain error')
            return False
        return True
    for f in (relsym(one - x, '<'), relsym(x + one, '<')):
        if f.op == 'T' or (f.op != 'F' and ctx.explorer.decide(f)):
            ctx.notes.add('%s outside [-1,1]' % fn)
            if strict:
                raise ValueError('math domain error')
            return False
    return True


@_memo
def sarccos(x, strict=False):
    x = Sym.of(x)
    if x.nan:
        return NAN
    if x.isconst():
        c = x.cval()
        if c in (1, 0, -1):
            return {1: ZERO, 0: Sym.var(C().pi()) / 2, -1: Sym.var(C().pi())}[c]
    if not _domain('arccos', x, strict):
        return NAN
    e = _recognise(x, None, 0)
    if e is not None:
        return e
    sn = _sqrt_nonneg(ONE_S - x * x)
    return _dangle('acos', x, sn, 0, 1, False, False)


def _sqrt_nonneg(x):
    """sqrt of a value known nonnegative on this path (no domain fork)."""
    ctx = C()
    neg = relsym(x, '<')
    if neg.op not in ('T', 'F'):
        ctx.known.setdefault(neg.key(), False)
    n, ctx.noise = ctx.noise, 0
    try:
        return ssqrt(x)
    finally:
        ctx.noise = n


@_memo
def sarcsin(x, strict=False):
    x = Sym.of(x)
    if x.nan:
        return NAN
    if x.isconst():
        c = x.cval()
        if c in (1, 0, -1):
            return {0: ZERO, 1: Sym.var(C().pi()) / 2, -1: -Sym.var(C().pi()) / 2}[c]
    if not _domain('arcsin', x, strict):
        return NAN
    cs = _sqrt_nonneg(ONE_S - x * x)
    return _dangle('asin', cs, x, Fraction(-1, 2), Fraction(1, 2), False, False)


# ---------------------------------------------------------------- rounding, integers

def concretise_int(x, how='floor', lo=-8, hi=8):
    """Fork over the integer value of floor/trunc(x); the stated bound is [lo, hi]."""
    if x.nan:
        raise ValueError('cannot convert float NaN to integer')
    if x.isconst():
        c = Fraction(x.cval())
        if how == 'floor':
            return math.floor(c)
        if how == 'ceil':
            return math.ceil(c)
        return math.trunc(c)
    if how == 'ceil':
        return -concretise_int(-x, 'floor', lo, hi)
    if how == 'trunc':
        if bool(x >= 0):
            return concretise_int(x, 'floor', 0, hi)
        return -concretise_int(-x, 'floor', 0, hi)
    ctx = C()
    cands = sorted(range(lo, hi + 1), key=lambda n: (abs(n), n))
    # order candidates by the witness points, so that likely values are tried first
    for n in cands:
        f = fand(relsym(Sym.const(n) - x, '<='), relsym(x - n - 1, '<'))
        if f.op == 'T' or (f.op != 'F' and ctx.explorer.decide(f)):
            return n
    ctx.notes.add('integer part outside [%d,%d] not explored' % (lo, hi))
    raise Infeasible('integer bound')


def floordiv(a, b):
    if a.nan or b.nan:
        return NAN
    q = div(a, b)
    if q.nan:
        return NAN
    return Sym.const(concretise_int(q, 'floor'))


def sround(x, nd=0):
    x = Sym.of(x)
    if x.nan:
        return x
    if x.isconst():
        c = Fraction(x.cval()) * Fraction(10) ** nd
        fl = math.floor(c)
        r = c - fl
        if r > Fraction(1, 2) or (r == Fraction(1, 2) and fl % 2):
            fl += 1
        return Sym.const(Fraction(fl) / Fraction(10) ** nd)
    ctx = C()
    if nd >= 6 and getattr(ctx, 'round_exact', False):
        ctx.notes.add('rounding to %d decimals treated as exact' % nd)
        return x
    h = Fraction(1, 2) / Fraction(10) ** nd

    def ev(i):
        v = seval(x, i)
        sc = 10 ** nd if nd >= 0 else 1
        w = v * sc
        return (((w + (ONE >> 1)) >> FB) << FB) // sc
    v = ctx.newvar(ctx.fresh('round'), 'fresh', ev=ev)
    V = Sym.var(v)
    v.defs = [relsym(x - V - h, '<='), relsym(V - x - h, '<=')]
    return V


def ssign(x):
    x = Sym.of(x)
    if x.nan:
        return NAN if x.nan == 'nan' else Sym.const(1 if x.nan == 'inf' else -1)
    if x.isconst():
        c = x.cval()
        return Sym.const((c > 0) - (c < 0))
    if bool(x > 0):
        return ONE_S
    return ZERO if bool(x == 0) else Sym.const(-1)


def _skey(x):
    return (pkey(x.num), tuple(sorted((k, e) for k, (f, e) in x.den.items())))


def _guarded(x):
    return _skey(x) in C().guarded


def _guard(r):
    if C().noise:
        C().guarded.add(_skey(r))
    return r


def smax(a, b):
    a, b = Sym.of(a), Sym.of(b)
    if a.nan == 'nan' or b.nan == 'nan':
        return NAN
    return _guard(b if bool(a < b) else a)


def smin(a, b):
    a, b = Sym.of(a), Sym.of(b)
    if a.nan == 'nan' or b.nan == 'nan':
        return NAN
    return _guard(b if bool(b < a) else a)


for _d in (1, 2, 3, 4, 6, 8, 12):
    for _k in range(-48, 49):
        if _k:
            _PI_MULTS.setdefault(math.pi * _k / _d, Fraction(_k, _d))
            _PI_MULTS.setdefault(_k / _d * math.pi, Fraction(_k, _d))
_PI_MULTS.setdefault(math.radians(1), Fraction(1, 180))
