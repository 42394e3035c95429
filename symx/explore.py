"""Path exploration by re-execution, and decision of the obligations of every path."""
import random
import time
import traceback
import zlib
from fractions import Fraction
import warnings
from . import core, solve, loader
from .core import (Ctx, Control, Infeasible, Unsupported, Restart, PathLimit, Sym, SymBool, F, fnot, fand, for_, rel, relsym, feval, tof,
                   TRUE, FALSE, fx, ONE)

import os
QT = int(os.environ.get('SYMX_FORK_MS', '400'))


class PathResult:
    def __init__(self):
        self.outcome = 'ok'
        self.goals = 0
        self.discharged = 0
        self.candidates = []     # (label, inputs json)
        self.inconclusive = []
        self.witness = None
        self.observed = {}
        self.notes = set()
        self.exc = None
        self.decisions = 0
        self.queries = 0


def _text(e):
    try:
        return str(e)
    except Exception:
        return '(no text)'


class Explorer:
    def __init__(self, name, fn, params, seed=1, npts=20, max_paths=4000, budget_s=60.0, goal_ms=4000, fork_ms=None, noise=0, tier='quick',
                 max_decisions=400):
        self.name, self.fn, self.params = name, fn, params
        self.seed, self.npts = seed, npts
        self.max_paths, self.budget, self.goal_ms = max_paths, budget_s, goal_ms
        self.fork_ms = fork_ms or QT
        self.noise = noise
        self.tier = tier
        self.gran = {}
        self.extra_points = []
        self.max_decisions = max_decisions
        self.feascache = {}
        self.on_path = lambda r: None
        self.on_restart = lambda: None

    # ------------------------------------------------------------ path control
    def run(self):
        from .env import SymEnv
        self.results = []
        self.unexplored = 0
        self.t0 = time.time()
        stack = [[]]
        paths = 0
        restarts = 0
        while stack:
            if paths >= self.max_paths or time.time() - self.t0 > self.budget:
                self.unexplored += len(stack)
                break
            prefix = stack.pop()
            self.prefix, self.pos, self.trace = prefix, 0, []
            self.pending = []
            ctx = Ctx()
            Ctx.cur = ctx
            ctx.explorer = self
            ctx.gran = self.gran
            ctx.noise = self.noise
            ctx.npts = 0
            self.ctx = ctx
            self.pc = []
            self.nq0 = solve.STATS['queries']
            env = SymEnv(self)
            res = PathResult()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.fn(env, **self.params)
            except Restart as r:
                restarts += 1
                if restarts > 40:
                    raise
                self.gran[r.name] = r.d
                self.on_restart()
                # start over: all earlier results are void
                stack = [[]]
                self.results = []
                paths = 0
                self.feascache.clear()
                continue
            except Infeasible as e:
                res.outcome = 'infeasible'
            except Unsupported as e:
                res.outcome = 'unsupported'
                res.exc = str(e) + ' @ ' + _where()
            except PathLimit:
                res.outcome = 'limit'
            except RecursionError as e:
                res.outcome = 'unsupported'
                res.exc = 'recursion'
            except Exception as e:
                res.outcome = 'raised'
                res.exc = '%s: %s @ %s' % (type(e).__name__, _text(e), _where())
            stack.extend(self.pending)
            paths += 1
            res.decisions = len(self.trace)
            res.notes = set(ctx.notes)
            self._finish(env, res)
            res.queries = solve.STATS['queries'] - self.nq0
            self.results.append(res)
            self.on_path(res)
        return self.results

    # ------------------------------------------------------------ decisions
    def assume(self, f):
        if f.op == 'T':
            return
        if f.op == 'F':
            raise Infeasible('assume')
        # an assumption is not a fork: one branch only
        k = ('assume', f.key())
        ctx = self.ctx
        parts = f.a if f.op == 'and' else (f,)
        for g in parts:
            self.pc.append(g)
            if g.op in ('<', '<=', '==', '!='):
                ctx.known[g.key()] = True
                ctx.known[fnot(g).key()] = False
        ctx.alive = [i for i in ctx.alive if feval(f, i)]
        if not ctx.alive:
            st, m = self._feasible(self.pc, model=True)
            if st == 'unsat':
                raise Infeasible('assume')
            if m:
                self._add_point(m)

    def decide(self, f):
        ctx = self.ctx
        kf, kn = f.key(), fnot(f).key()
        if kf in ctx.known:
            return ctx.known[kf]
        if kn in ctx.known:
            return not ctx.known[kn]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(val)
            self._take(f, val)
            return val
        if len(self.trace) > self.max_decisions:
            raise PathLimit()
        tv = [i for i in ctx.alive if feval(f, i) is True]
        fv = [i for i in ctx.alive if feval(f, i) is False]
        nf = fnot(f)
        ft = 'sat' if tv else None
        ff = 'sat' if fv else None
        if ft is None:
            ft, m = self._feasible(self.pc + [f], goal=f, model=True)
            if ft == 'sat' and m:
                self._add_point(m)
        if ff is None:
            if ft == 'unsat':
                # a path is only continued while feasible, so the other side must be
                ff = 'sat' if (ctx.alive or True) else 'unknown'
            else:
                ff, m = self._feasible(self.pc + [nf], goal=nf, model=True)
                if ff == 'sat' and m:
                    self._add_point(m)
        if ft != 'unsat' and ff != 'unsat':
            # explore the side with a witness first; the other later
            val = bool(tv) or not fv
            self.pending.append(self.trace + [not val])
        elif ft == 'unsat':
            val = False
        else:
            val = True
        self.pos += 1
        self.prefix = self.trace + [val]
        self.trace.append(val)
        self._take(f, val)
        return val

    def branch(self, n):
        """Nondeterministic choice among n options (explored exhaustively)."""
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            val = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
            self.prefix = self.trace + [val]
        self.pos += 1
        self.trace.append(val)
        return val

    def noisy(self, fn, x, bad):
        """A domain-restricted function whose argument carries a rounding error: can it leave the domain?"""
        ctx = self.ctx
        v = ctx.newvar(ctx.fresh('noise'), 'fresh', ev=lambda i: 0)
        n = Fraction(self.noise)
        v.lo, v.hi = -n, n
        f = bad(x + Sym.var(v))
        if f.op in ('T', 'F'):
            return f.op == 'T'
        r = self.decide(f)
        if r:
            ctx.notes.add('noise:%s' % fn)
        return r

    def _take(self, f, val):
        g = f if val else fnot(f)
        ctx = self.ctx
        self.pc.append(g)
        ctx.known[f.key()] = val
        ctx.known[fnot(f).key()] = not val
        # consequences of strict/nonstrict comparisons
        if g.op == '<':
            ctx.known.setdefault(F('<=', p=g.p).key(), True)
            n = core.pscale(g.p, -1)
            ctx.known.setdefault(F('<', p=n).key(), False)
            ctx.known.setdefault(F('<=', p=n).key(), False)
            e = rel(g.p, '==')
            if e.p is not None:
                ctx.known.setdefault(e.key(), False)
                ctx.known.setdefault(fnot(e).key(), True)
        elif g.op == '==':
            for s in (1, -1):
                q = core.pscale(g.p, s)
                ctx.known.setdefault(F('<', p=q).key(), False)
                ctx.known.setdefault(F('<=', p=q).key(), True)
        elif g.op == 'and':
            for h in g.a:
                if h.op in ('<', '<=', '==', '!='):
                    ctx.known.setdefault(h.key(), True)
                    ctx.known.setdefault(fnot(h).key(), False)
        # the sign of x resolves |x|
        ctx.alive = [i for i in ctx.alive if feval(g, i)]
        self._learn_sign(g)

    def _learn_sign(self, g):
        """r != 0 for a nonnegative variable makes it positive."""
        if g.op in ('!=', '<') and g.p is not None and len(g.p) == 1:
            (m, c), = g.p.items()
            vs = core.mono_vars(m)
            if len(vs) == 1:
                v = self.ctx.vars[vs[0][0]]
                if v.sign == '0+':
                    v.sign = '+'
                elif v.sign is None and g.op == '<' and c < 0 and vs[0][1] == 1:
                    v.sign = '+'

    def _feasible(self, pc, goal=None, model=False):
        if goal is not None:
            gv = core.fvars(goal)
            chosen, _ = solve.cone([f for f in pc if f is not goal], gv)
            fs = chosen + [goal]
        else:
            fs = pc
        key = tuple(sorted(repr(f.key()) for f in fs))
        hit = self.feascache.get(key)
        if hit is not None:
            return hit
        st, m = solve.check(fs, self.fork_ms, want_model=model)
        out = (st, self._named(m) if m else None)
        self.feascache[key] = out
        return out

    def _named(self, m):
        return {self.ctx.vars[i].name: v for i, v in m.items() if self.ctx.vars[i].base}

    # ------------------------------------------------------------ witness points
    def _add_point(self, named):
        ctx = self.ctx
        i = ctx.npts
        ctx.npts += 1
        ctx.newpoint = named
        for d in ctx.decls:
            d.extend(i, named)
        for v in ctx.vars:
            if len(v.vals) <= i:
                try:
                    v.vals.append(v.ev(i) if v.ev is not None else None)
                except (TypeError, ZeroDivisionError, ValueError):
                    v.vals.append(None)
        if all(feval(f, i) for f in self.pc):
            ctx.alive.append(i)
            if len(self.extra_points) < 64:
                self.extra_points.append(named)

    # ------------------------------------------------------------ obligations
    def _finish(self, env, res):
        ctx = self.ctx
        if res.outcome == 'infeasible':
            return
        if res.outcome == 'raised':
            env.goals.append(('req', FALSE, 'unexpected ' + res.exc))
        if res.outcome in ('unsupported', 'limit'):
            res.inconclusive.append('%s: %s' % (res.outcome, res.exc))
        res.goals = len(env.goals)
        # the identities that hold in normal form are one (trivial) query
        triv = []
        hard = []
        for g in env.goals:
            if g[0] == 'eq':
                if g[1].iszero():
                    triv.append(g)
                else:
                    hard.append(g)
            else:
                if g[1].op == 'T':
                    triv.append(g)
                else:
                    hard.append(g)
        if triv:
            st, _ = solve.check([for_(*[rel(g[1].num, '!=') if g[0] == 'eq' else fnot(g[1]) for g in triv])], 1000)
            if st == 'unsat':
                res.discharged += len(triv)
        if hard:
            self._hard(env, res, hard)
        if not ctx.decls:
            res.witness = dict(env.choices)
        elif ctx.alive:
            i = ctx.alive[0]
            res.witness = env.inputs_at(i)
            try:
                res.observed = {k: _obs(v, i) for k, v in env.obs.items()}
            except Exception:
                res.observed = {}

    def _neg(self, g):
        if g[0] == 'eq':
            d, tol = g[1], g[2]
            if d.nan:
                return TRUE
            if tol:
                t = Sym.of(Fraction(tol).limit_denominator(10 ** 15) if not isinstance(tol, Fraction) else tol)
                return for_(relsym(t - d, '<'), relsym(d + t, '<'))
            return relsym(d, '!=')
        return fnot(g[1])

    def _hard(self, env, res, hard):
        ctx = self.ctx
        feas = None
        for g in hard:
            neg = self._neg(g)
            label = g[-1]
            if neg.op == 'F':
                res.discharged += 1
                continue
            # (1) a witness point of this path that breaks it
            bad = [i for i in ctx.alive if feval(neg, i) is True]
            if bad:
                for i in bad[:3]:
                    res.candidates.append((label, env.inputs_at(i), 'model' if label.startswith('~') else 'witness'))
                continue
            # (2) solver over all values on this path
            st = self._prove(neg, res, env, label)
            if st == 'unsat':
                res.discharged += 1
            elif st == 'unknown':
                res.inconclusive.append(label)
            if len(res.inconclusive) > 6 or len(res.candidates) > 6:
                break

    def _prove(self, neg, res, env, label):
        ctx = self.ctx
        # case split on the absolute-value variables of the goal
        st = self._prove_split(neg, list(self.pc), 0)
        if st[0] == 'sat':
            named = st[1]
            n = ctx.npts
            self._add_point(named or {})
            i = ctx.npts - 1
            # a model that does not survive exact evaluation comes from the abstraction of a transcendental function
            exact = i in ctx.alive and feval(neg, i) is True and not label.startswith('~')
            res.candidates.append((label, env.inputs_at(i), 'exact' if exact else 'model'))
            if not self._inside(neg, label, env, res) and not exact:
                self._around(named or {}, neg, label, env, res)
            return 'sat'
        return st[0]

    def _inside(self, neg, label, env, res):
        """A model away from the borders of the inequalities, where rounding of the inputs does not matter."""
        ctx = self.ctx
        for m in (Fraction(1, 1000), Fraction(1, 10 ** 6), Fraction(1, 10 ** 9)):
            st, model = solve.check([tighten(f, m) for f in self.pc + [neg]], self.goal_ms, want_model=True)
            if st == 'sat' and model:
                self._add_point(self._named(model))
                i = ctx.npts - 1
                if i in ctx.alive and feval(neg, i) is True:
                    res.candidates.append((label, env.inputs_at(i), 'model' if label.startswith('~') else 'witness'))
                    return True
        return False

    def _around(self, named, neg, label, env, res, n=80, secs=8):
        """The model's angle values and their sines disagree (abstraction): look for a concrete point of this path near it that breaks the goal."""
        ctx = self.ctx
        rng = random.Random(self.seed * 977 + ctx.npts)
        t0 = time.time()
        pairs = [(d.v.name, d.c.name, d.s.name) for d in ctx.decls if hasattr(d, 'c') and hasattr(d, 's')]
        for k in range(n):
            if time.time() - t0 > secs:
                return
            m = dict(named)
            for v, c, s in pairs:
                if k == 0 or rng.random() < 0.5:
                    m.pop(c, None)
                    m.pop(s, None)
            if k:
                p = rng.choice((0.15, 0.4, 0.7, 1.0))
                for d in ctx.decls:
                    if rng.random() < p:
                        for x in [x for x in m if x == d.name or hasattr(d, 'c') and x in (d.c.name, d.s.name)]:
                            del m[x]
            self._add_point(m)
            i = ctx.npts - 1
            if i in ctx.alive and feval(neg, i) is True:
                res.candidates.append((label, env.inputs_at(i), 'model' if label.startswith('~') else 'witness'))
                return

    def _prove_split(self, neg, pc, depth):
        ctx = self.ctx
        if neg.op == 'F':
            return 'unsat', None
        if neg.op == 'or':
            worst = 'unsat'
            for x in neg.a:
                r = self._prove_split(x, pc, depth)
                if r[0] == 'sat':
                    return r
                if r[0] == 'unknown':
                    worst = 'unknown'
            return worst, None
        if neg.op == 'and':
            pc = pc + list(neg.a[1:])
            return self._prove_split(neg.a[0], pc, depth)
        # substitute linear equalities
        if neg.p is not None:
            p = substitute_equalities(neg.p, pc)
            if p is not neg.p:
                neg = rel(p, neg.op)
                if neg.op == 'F':
                    return 'unsat', None
                if neg.op == 'T':
                    return self._query(pc, None)
            absv = [j for j in core.poly_vars(neg.p) if ctx.vars[j].kind == 'abs'] if neg.p is not None else []
            if absv and depth < 6:
                j = absv[-1]
                v = ctx.vars[j]
                worst = 'unsat'
                for sgn in (1, -1):
                    q = core.pscale(v.link, sgn)
                    cond = rel(core.pscale(q, -1), '<=')
                    if cond.op == 'F':
                        continue
                    n2 = rel(core.psubst(neg.p, j, q), neg.op)
                    r = self._prove_split(n2, pc + ([cond] if cond.op != 'T' else []), depth + 1)
                    if r[0] == 'sat':
                        return r
                    if r[0] == 'unknown':
                        worst = 'unknown'
                return worst, None
        return self._query(pc, neg)

    def _query(self, pc, neg):
        if neg is not None and neg.op != 'T':
            gv = core.fvars(neg)
            chosen, _ = solve.cone(pc, gv)
            st, m = solve.check(chosen + [neg], self.goal_ms, want_model=False)
            if st == 'unsat':
                return st, None
            if st == 'unknown':
                # retry with the whole path condition and with a subset
                return 'unknown', None
            st, m = solve.check(pc + [neg], self.goal_ms, want_model=True)
            return st, (self._named(m) if m else None)
        st, m = solve.check(pc or [TRUE], self.goal_ms, want_model=True)
        return st, (self._named(m) if m else None)


def tighten(f, m):
    if f.op in ('and', 'or'):
        return F(f.op, tuple(tighten(x, m) for x in f.a))
    if f.op in ('<', '<=') and f.p is not None:
        k = max(abs(c) for c in f.p.values())
        return F(f.op, p=core.padd(f.p, core.pconst(m * k)))
    return f


def substitute_equalities(p, pc):
    vs = Ctx.cur.vars
    changed = p
    for f in pc:
        if f.op != '==' or f.p is None:
            continue
        used = set(core.poly_vars(changed))
        for j in reversed(core.poly_vars(f.p)):
            if j not in used:
                continue
            # v = const multiple pattern: single monomial v^e == 0
            if len(f.p) == 1:
                (m, c), = f.p.items()
                mv = core.mono_vars(m)
                if len(mv) == 1:
                    changed = core.psubst(changed, j, {})
                break
            if vs[j].rule is not None or vs[j].kind == 'pi':
                continue
            sp = core.pcoeff_split(f.p, j)
            if sp is None:
                continue
            A, B = sp
            if core.isconst(A) and A:
                changed = core.psubst(changed, j, core.pscale(B, Fraction(-1) / core.cval(A)))
                break
    return changed


def _obs(v, i):
    from .arr import SymArray
    import numpy as np
    if isinstance(v, (SymArray, np.ndarray, list, tuple)):
        return [_obs(x, i) for x in v]
    if isinstance(v, Sym):
        r = core.seval(v, i)
        return None if r is None else float(Fraction(r, ONE))
    return v


def _where():
    import sys
    tb = traceback.extract_tb(sys.exc_info()[2])
    out = []
    for fr in reversed(tb):
        if '/symx/' in fr.filename and out:
            continue
        out.append('%s:%s' % (os.path.basename(fr.filename), fr.lineno))
        if len(out) >= 4:
            break
    return ' < '.join(out)
