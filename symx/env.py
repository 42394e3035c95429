"""Harness environments: the same harness body runs symbolically (SymEnv) and on floats against the real code (ConcreteEnv)."""
import math
import random
import sys
from fractions import Fraction
import mpmath
import numpy as _np
from . import core, npx, loader, arr
from .core import Sym, SymBool, Ctx, F, ONE, FB, fx, rel, relsym, fand, for_, fnot, tof, TRUE, FALSE, Infeasible
CTOL = 1e-7     # tolerance of replays and witness runs (relative and absolute)
from .arr import SymArray, toarr


def _f(v):
    return float(Fraction(v, ONE))


class Decl:
    def __init__(self, env, name):
        self.env, self.name = env, name
        self.ctx = env.ctx

    def rng(self, i):
        return random.Random('%s:%s:%s:%s' % (self.env.ex.seed, self.env.ex.name, self.name, i))


class RealD(Decl):
    def __init__(self, env, name, lo, hi, pos, nz, samples, scale):
        Decl.__init__(self, env, name)
        self.lo, self.hi, self.pos, self.nz, self.samples, self.scale = lo, hi, pos, nz, samples, scale
        v = self.ctx.newvar(name, 'real')
        v.base = True
        v.lo = None if lo is None else Fraction(lo)
        v.hi = None if hi is None else Fraction(hi)
        if pos:
            v.sign = '+'
        elif lo is not None and lo > 0:
            v.sign = '+'
        elif lo is not None and lo == 0:
            v.sign = '0+'
        self.v = v
        v.vals = []

    def extend(self, i, named):
        if self.name in named:
            self.v.vals.append(fx(named[self.name]))
            return
        r = self.rng(i)
        if self.samples and r.random() < 0.6:
            x = Fraction(r.choice(self.samples))
        else:
            lo = -self.scale if self.lo is None else self.lo
            hi = self.scale if self.hi is None else self.hi
            if self.pos and lo < 0:
                lo = 0
            u = r.random()
            if u < 0.12 and lo <= 0 <= hi and not (self.pos or self.nz):
                x = Fraction(0)
            elif u < 0.2 and lo <= 1 <= hi:
                x = Fraction(1)
            elif u < 0.26 and not self.pos and self.lo is not None:
                x = Fraction(lo)
            elif u < 0.32 and self.hi is not None:
                x = Fraction(hi)
            else:
                x = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(r.randint(1, 1023), 1024)
        self.v.vals.append(fx(x))

    def json(self, i):
        return _f(self.v.vals[i])


class AngleD(Decl):
    """An angle input; base variables are its value and the cosine/sine of value/d."""
    def __init__(self, env, name, d, lo, hi, special):
        Decl.__init__(self, env, name)
        ctx = self.ctx
        nm = 'ang(%s)' % name
        self.d = ctx.gran.get(nm, d)
        self.lo, self.hi = lo, hi
        self.special = special
        self.v = ctx.newvar(name, 'angle')
        self.v.base = True
        self.v.vals = []
        if lo is not None:
            self.v.lo = Fraction(lo)
        if hi is not None:
            self.v.hi = Fraction(hi)
        self.c, self.s = core._unitpair(nm + '/%d' % self.d, None, None)
        for x in (self.c, self.s):
            x.base = True
            x.vals = []
        ctx.trig[self.v.mono] = (self.d, Sym.var(self.c), Sym.var(self.s))
        if lo is not None and hi is not None and lo > -math.pi * self.d and hi < math.pi * self.d:
            # value and base pair determine one another's signs and quadrants within the stated range
            V, s_, c_ = Sym.var(self.v), Sym.var(self.s), Sym.var(self.c)
            d_ = self.d
            P = Sym.var(ctx.pi())
            L = []
            if lo >= 0:
                L += [relsym(s_ * d_ - V, '<='), relsym(-s_, '<=')]
            else:
                L += [for_(relsym(V, '<'), fand(relsym(s_ * d_ - V, '<='), relsym(-s_, '<='))),
                      for_(relsym(-V, '<'), fand(relsym(V - s_ * d_, '<='), relsym(s_, '<=')))]
            h = P * Fraction(d_, 2)
            for f, g in ((relsym(-c_, '<'), fand(relsym(V - h, '<'), relsym(-V - h, '<'))), (relsym(c_, '<'), for_(relsym(h - V, '<'), relsym(h + V, '<')))):
                L.append(for_(fnot(f), g))
            # numeric bounds of the cosine over the range
            a = max(abs(float(lo)), abs(float(hi))) / d_
            if a < math.pi:
                cl = Fraction(math.cos(a)) - Fraction(1, 10 ** 12)
                self.c.lo = max(self.c.lo, cl)
                if cl > 0:
                    self.c.sign = '+'
            self.v.defs = [f for f in L if f.op != 'T']
            self.c.defs = list(getattr(self.c, 'defs', None) or []) + self.v.defs
        ctx.trigname[self.v.mono] = nm

    def extend(self, i, named):
        cn, sn = self.c.name, self.s.name
        if cn in named and sn in named:
            c, s = mpmath.mpf(0), mpmath.mpf(0)
            c = mpmath.mpf(named[cn].numerator) / named[cn].denominator
            s = mpmath.mpf(named[sn].numerator) / named[sn].denominator
            n = mpmath.sqrt(c * c + s * s)
            c, s = c / n, s / n
            th = mpmath.atan2(s, c) * self.d
            if self.name in named:
                t0 = mpmath.mpf(named[self.name].numerator) / named[self.name].denominator
                per = 2 * mpmath.pi * self.d
                th += per * mpmath.nint((t0 - th) / per)
        elif self.name in named:
            th = mpmath.mpf(named[self.name].numerator) / named[self.name].denominator
        else:
            r = self.rng(i)
            lo = -math.pi if self.lo is None else float(self.lo)
            hi = math.pi if self.hi is None else float(self.hi)
            if r.random() < 0.35 or self.special and r.random() < 0.3:
                opts = [mpmath.pi * k / 2 for k in range(-9, 10) if lo - 1e-12 <= math.pi * k / 2 <= hi + 1e-12]
                opts += [mpmath.mpf(x) for x in self.special]
                th = r.choice(opts) if opts else mpmath.mpf((lo + hi) / 2)
            else:
                th = mpmath.mpf(r.uniform(lo, hi))
        c, s = mpmath.cos(th / self.d), mpmath.sin(th / self.d)

        def F_(x):
            v = int(mpmath.nint(x * ONE))
            for t in (0, ONE, -ONE):
                if abs(v - t) < (1 << (FB - 190)):
                    return t
            return v
        self.v.vals.append(int(mpmath.nint(th * ONE)))
        self.c.vals.append(F_(c))
        self.s.vals.append(F_(s))

    def json(self, i):
        return _f(self.v.vals[i])


class UnitD(Decl):
    def __init__(self, env, name, n):
        Decl.__init__(self, env, name)
        ctx = self.ctx
        self.vs = []
        for j in range(n):
            v = ctx.newvar('%s%s' % (name, 'xyzw'[j] if n == 3 else 'wxyz'[j]), 'unit')
            v.base = True
            v.vals = []
            v.lo, v.hi = Fraction(-1), Fraction(1)
            self.vs.append(v)
        p = {0: 1}
        q = {0: -1}
        for v in self.vs[:-1]:
            p[2 << (core.SH * v.idx)] = -1
        for v in self.vs:
            q[2 << (core.SH * v.idx)] = 1
        ctx.setrule(self.vs[-1], p)
        self.vs[-1].defs = [F('==', p=q)]
        for v in self.vs[:-1]:
            v.defs = []
            # the rule variable must accompany any other component
            v.defs = [F('==', p=q)]
        ctx.unitgroups.append([v.idx for v in self.vs])

    def extend(self, i, named):
        n = len(self.vs)
        if all(v.name in named for v in self.vs):
            xs = [fx(named[v.name]) for v in self.vs]
        else:
            r = self.rng(i)
            u = r.random()
            if u < 0.2:
                xs = [0] * n
                xs[r.randrange(n)] = r.choice([ONE, -ONE])
            else:
                xs = [int(r.gauss(0, 1) * (1 << 40)) << (FB - 40) for _ in range(n)]
                if u < 0.5:
                    xs[r.randrange(n)] = 0
        nn = sum((x * x) >> FB for x in xs)
        nn = math.isqrt(nn << FB)
        if nn == 0:
            xs, nn = [ONE] + [0] * (n - 1), ONE
        for v, x in zip(self.vs, xs):
            v.vals.append((x << FB) // nn)

    def json(self, i):
        return [_f(v.vals[i]) for v in self.vs]


class SymEnv:
    symbolic = True

    def __init__(self, ex):
        self.ex, self.ctx = ex, ex.ctx
        self.goals = []
        self.obs = {}
        self.decls = {}
        self.choices = {}
        self.np = npx.NP
        self.pi = Sym.var(self.ctx.pi())
        self._world = None
        self.stubs = {}
        self.tier = ex.tier

    # ---- modules
    @property
    def world(self):
        if self._world is None:
            self._world = loader.World(self.stubs)
        return self._world

    @property
    def rox(self):
        return self.world.load('general_robotics_toolbox')

    def mod(self, name):
        return self.world.load('general_robotics_toolbox.' + name)

    def fresh(self):
        """A newly loaded library (no history)."""
        return loader.World(self.stubs).load('general_robotics_toolbox')

    # ---- inputs
    def _add(self, d):
        ctx = self.ctx
        assert d.name not in self.decls, d.name
        self.decls[d.name] = d
        ctx.decls.append(d)
        if not ctx.npts and len(ctx.decls) == 1:
            ctx.npts = self.ex.npts + len(self.ex.extra_points)
            ctx.alive = list(range(ctx.npts))
            for v in ctx.vars:
                if v.ev is not None:
                    v.vals = [v.ev(i) for i in range(ctx.npts)]
        for i in range(ctx.npts):
            k = i - self.ex.npts
            d.extend(i, self.ex.extra_points[k] if 0 <= k < len(self.ex.extra_points) else {})
        return d

    def real(self, name, lo=None, hi=None, pos=False, nz=False, samples=(), scale=2):
        d = self._add(RealD(self, name, lo, hi, pos, nz, samples, scale))
        x = Sym.var(d.v)
        if pos:
            self.ex.pc.append(F('<', p={d.v.mono: -1}))
        if nz:
            self.assume(x != 0)
        return x

    def vec(self, name, n=3, **k):
        return toarr([self.real('%s%d' % (name, i), **k) for i in range(n)])

    def angle(self, name, d=1, lo=None, hi=None, special=()):
        return Sym.var(self._add(AngleD(self, name, d, lo, hi, special)).v)

    def angles(self, name, n, **k):
        return toarr([self.angle('%s%d' % (name, i), **k) for i in range(n)])

    def unit3(self, name):
        return toarr([Sym.var(v) for v in self._add(UnitD(self, name, 3)).vs])

    def unitquat(self, name):
        return toarr([Sym.var(v) for v in self._add(UnitD(self, name, 4)).vs])

    def frame(self, name):
        return quatR(self.np, self.unitquat(name))

    def choice(self, name, options):
        k = self.ex.branch(len(options))
        self.choices[name] = k
        return options[k]

    def array(self, x):
        return toarr(x)

    def const(self, x):
        return Sym.of(x)

    # ---- assertions
    def assume(self, cond):
        self.ex.assume(tof(_allc(cond)))

    def eq(self, a, b, label, tol=0, ctol=CTOL):
        a, b = toarr(a), toarr(b)
        if a.shape != b.shape:
            self.goals.append(('req', FALSE, '%s: shape %s, expected %s' % (label, a.shape, b.shape)))
            return
        for i in _np.ndindex(a.shape):
            x, y = _np.ndarray.__getitem__(a, i), _np.ndarray.__getitem__(b, i)
            x, y = Sym.of(x), Sym.of(y)
            if x.nan or y.nan:
                self.goals.append(('req', FALSE, '%s%s: not a finite number' % (label, list(i))))
            else:
                self.goals.append(('eq', x - y, tol, label + (str(list(i)) if i else '')))

    def same_angle(self, a, b, label):
        np = self.np
        self.eq(np.cos(a), np.cos(b), label + ' (cos)')
        self.eq(np.sin(a), np.sin(b), label + ' (sin)')

    def Same(self, a, b):
        """Condition: equal angles modulo a full turn."""
        np = self.np
        ca, sa, cb, sb = Sym.of(np.cos(a)), Sym.of(np.sin(a)), Sym.of(np.cos(b)), Sym.of(np.sin(b))
        if ca.nan or cb.nan:
            return SymBool(FALSE)
        # one equation instead of two: cos(a-b) = 1
        d = (ca - cb) * (ca - cb) + (sa - sb) * (sa - sb)
        if d.iszero():
            return SymBool(TRUE)
        return SymBool(fand(relsym(ca - cb, '=='), relsym(sa - sb, '==')))

    def angle_of(self, c, s):
        """The principal angle with given cosine and sine (c^2+s^2 = 1 holds identically)."""
        c, s = Sym.of(c), Sym.of(s)
        return core._dangle('ang', c, s, -1, 1, True, False)

    def require(self, cond, label):
        self.goals.append(('req', tof(_allc(cond)), label))

    def fail(self, label):
        self.goals.append(('req', FALSE, label))

    def suspect(self, label):
        """The symbolic run left what the harness models: a candidate for the concrete run, not a verdict."""
        self.goals.append(('req', FALSE, '~' + label))

    def finite(self, x, label):
        a = toarr(x)
        ok = all(not Sym.of(e).nan for e in a.view(_np.ndarray).reshape(-1))
        self.goals.append(('req', TRUE if ok else FALSE, label + ': finite'))

    def isfinite(self, x):
        a = toarr(x)
        return all(not Sym.of(e).nan for e in a.view(_np.ndarray).reshape(-1))

    def observe(self, name, val):
        self.obs[name] = val

    def And(self, *a):
        return SymBool(fand(*[tof(x) for x in a]))

    def Or(self, *a):
        return SymBool(for_(*[tof(x) for x in a]))

    def Not(self, a):
        return SymBool(fnot(tof(a)))

    def Implies(self, a, b):
        return SymBool(for_(fnot(tof(a)), tof(b)))

    def inputs_at(self, i):
        r = {n: d.json(i) for n, d in self.decls.items()}
        r.update(self.choices)
        return r


def _allc(c):
    if isinstance(c, _np.ndarray):
        return SymBool(fand(*[tof(x) for x in c.reshape(-1)]))
    return c


def quatR(np, q):
    """Rotation matrix of a unit quaternion [w,x,y,z] (the harness's own formula)."""
    w, x, y, z = q[0], q[1], q[2], q[3]
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


class Skip(BaseException):
    pass


class Fill(dict):
    pass


class ConcreteEnv:
    symbolic = False

    def __init__(self, inputs, tier='quick', slack=1e-9, fill=False):
        self.inputs = Fill(inputs) if fill else inputs
        self.np = _np
        self.pi = math.pi
        self.fails = []
        self.ngoals = 0
        self.obs = {}
        self.stubs = {}
        self.tier = tier
        self.slack = slack

    def _in(self, name, kind, k):
        if name not in self.inputs and isinstance(self.inputs, Fill):
            # an input declared after the point where the symbolic run stopped
            r = random.Random('fill:' + name)
            if kind == 'real':
                lo, hi = k.get('lo'), k.get('hi')
                return r.uniform(-2 if lo is None else float(lo), 2 if hi is None else float(hi))
            if kind == 'choice':
                return r.randrange(k['n'])
            return [r.gauss(0, 1) for _ in range(kind)]
        return self.inputs[name]

    @property
    def rox(self):
        self._install()
        import general_robotics_toolbox as m
        return m

    def _install(self):
        for k, v in self.stubs.items():
            sys.modules.setdefault(k, v)

    def fresh(self):
        self._install()
        import importlib
        old = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'general_robotics_toolbox'}
        for k in old:
            del sys.modules[k]
        try:
            return importlib.import_module('general_robotics_toolbox')
        finally:
            for k in [k for k in sys.modules if k.split('.')[0] == 'general_robotics_toolbox']:
                del sys.modules[k]
            sys.modules.update(old)

    def mod(self, name):
        self._install()
        import importlib
        return importlib.import_module('general_robotics_toolbox.' + name)

    def real(self, name, **k):
        x = float(self._in(name, 'real', k))
        if k.get('lo') is not None:
            x = max(x, float(k['lo']))
        if k.get('hi') is not None:
            x = min(x, float(k['hi']))
        return x

    def vec(self, name, n=3, **k):
        return _np.array([self.real('%s%d' % (name, i), **k) for i in range(n)])

    def angle(self, name, **k):
        x = float(self._in(name, 'real', k))
        if k.get('lo') is not None:
            x = max(x, float(k['lo']))
        if k.get('hi') is not None:
            x = min(x, float(k['hi']))
        return x

    def angles(self, name, n, **k):
        return _np.array([self.angle('%s%d' % (name, i), **k) for i in range(n)])

    def _unit(self, name, n):
        v = _np.array(self._in(name, n, {}), dtype=float)
        return v / _np.linalg.norm(v)

    def unit3(self, name):
        return self._unit(name, 3)

    def unitquat(self, name):
        return self._unit(name, 4)

    def frame(self, name):
        return quatR(_np, self.unitquat(name))

    def choice(self, name, options):
        return options[int(self._in(name, 'choice', {'n': len(options)}))]

    def array(self, x):
        return _np.array(x, dtype=float)

    def const(self, x):
        return x

    def assume(self, cond):
        if not _np.all(cond):
            raise Skip()

    def eq(self, a, b, label, tol=0, ctol=CTOL):
        self.ngoals += 1
        a, b = _np.asarray(a, dtype=float), _np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fails.append('%s: shape %s, expected %s' % (label, a.shape, b.shape))
            return
        if a.size == 0:
            return
        with _np.errstate(all='ignore'):
            err = _np.abs(a - b)
            bound = max(float(tol), ctol) * (1 + _np.abs(b))
            bad = ~(err <= bound)
        if _np.any(bad):
            self.fails.append('%s: got %s expected %s' % (label, _np.array2string(a, precision=9), _np.array2string(b, precision=9)))

    def same_angle(self, a, b, label):
        self.eq(_np.cos(a), _np.cos(b), label)
        self.eq(_np.sin(a), _np.sin(b), label)

    def Same(self, a, b):
        return abs(math.cos(a) - math.cos(b)) < 1e-5 and abs(math.sin(a) - math.sin(b)) < 1e-5

    def require(self, cond, label):
        self.ngoals += 1
        if not _np.all(cond):
            self.fails.append(label)

    def fail(self, label):
        self.ngoals += 1
        self.fails.append(label)

    def suspect(self, label):
        pass

    def finite(self, x, label):
        self.ngoals += 1
        if not _np.all(_np.isfinite(_np.asarray(x, dtype=float))):
            self.fails.append(label + ': finite')

    def isfinite(self, x):
        return bool(_np.all(_np.isfinite(_np.asarray(x, dtype=float))))

    def observe(self, name, val):
        self.obs[name] = val

    def And(self, *a):
        return all(bool(_np.all(x)) for x in a)

    def Or(self, *a):
        return any(bool(_np.all(x)) for x in a)

    def Not(self, a):
        return not bool(_np.all(a))

    def Implies(self, a, b):
        return (not bool(_np.all(a))) or bool(_np.all(b))
