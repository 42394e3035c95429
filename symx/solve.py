"""z3 back end: feasibility of path conditions and decision of obligations."""
import time
import z3
from fractions import Fraction
from . import core
from .core import Ctx, mono_vars, fvars, poly_vars

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


def zvar(v, cache):
    z = cache.get(v.idx)
    if z is None:
        z = z3.Real('v%d_%s' % (v.idx, v.name))
        cache[v.idx] = z
    return z


def zq(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def zpoly(p, cache):
    vs = Ctx.cur.vars
    terms = []
    for m, c in p.items():
        fac = []
        for i, e in mono_vars(m):
            z = zvar(vs[i], cache)
            fac += [z] * e
        if not fac:
            terms.append(zq(c))
            continue
        t = fac[0]
        for f in fac[1:]:
            t = t * f
        terms.append(t if c == 1 else zq(c) * t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def zform(f, cache):
    if f.op == 'T':
        return z3.BoolVal(True)
    if f.op == 'F':
        return z3.BoolVal(False)
    if f.op == 'and':
        return z3.And([zform(x, cache) for x in f.a])
    if f.op == 'or':
        return z3.Or([zform(x, cache) for x in f.a])
    if f.op == 'not':
        return z3.Not(zform(f.a[0], cache))
    p = zpoly(f.p, cache)
    return {'<': p < 0, '<=': p <= 0, '==': p == 0, '!=': p != 0}[f.op]


def var_facts(v, cache):
    z = zvar(v, cache)
    out = []
    if v.sign == '+':
        out.append(z > 0)
    elif v.sign == '0+':
        out.append(z >= 0)
    if v.lo is not None:
        out.append(z >= zq(v.lo))
    if v.hi is not None:
        out.append(z <= zq(v.hi))
    return out


def closure(idxs):
    """Variables reachable through definitions."""
    vs = Ctx.cur.vars
    todo, seen = list(idxs), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for f in vs[i].defs:
            todo.extend(fvars(f) - seen)
    return seen


def cone(pc, goal_vars):
    """The formulas of pc connected to goal_vars (through shared variables and definitions)."""
    pcs = [(f, closure(fvars(f))) for f in pc]
    cur = closure(goal_vars)
    chosen, rest = [], pcs
    # variables that are mere constants do not connect
    piv = Ctx.cur.byname.get('PI')
    pi = {piv.idx} if piv else set()
    changed = True
    while changed:
        changed = False
        nr = []
        for f, vs in rest:
            if vs & (cur - pi):
                chosen.append(f)
                cur |= vs
                changed = True
            else:
                nr.append((f, vs))
        rest = nr
    return chosen, cur


def check(formulas, timeout_ms, pins=None, want_model=False, full_vars=None):
    """Satisfiability of a conjunction, with the definitions of every variable involved.

    Returns ('sat'|'unsat'|'unknown', model-dict or None)."""
    vs = Ctx.cur.vars
    cache = {}
    idx = set()
    for f in formulas:
        idx |= fvars(f)
    if pins:
        idx |= set(pins)
    if full_vars:
        idx |= set(full_vars)
    idx = closure(idx)
    cons = []
    for f in formulas:
        cons.append(zform(f, cache))
    for i in sorted(idx):
        v = vs[i]
        cons += var_facts(v, cache)
        for d in v.defs:
            cons.append(zform(d, cache))
    if pins:
        for i, val in pins.items():
            if i in idx:
                cons.append(zvar(vs[i], cache) == zq(val))
    # skip trivially false
    nonlin = any(_nonlinear(f) for f in formulas) or any(_nonlinear(d) for i in idx for d in vs[i].defs)
    t0 = time.time()
    s = z3.Tactic('qfnra-nlsat').solver() if nonlin and pins is None else z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(cons)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    if r == z3.unknown and nonlin and pins is None:
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        s.add(cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    STATS[res] += 1
    if res == 'sat' and want_model:
        m = s.model()
        out = {}
        for i in sorted(idx):
            z = zvar(vs[i], cache)
            val = m.eval(z, model_completion=True)
            out[i] = _tofrac(val)
        return res, out
    return res, None


def _tofrac(val):
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def _nonlinear(f):
    if f.p is not None:
        for m in f.p:
            if sum(e for _, e in mono_vars(m)) > 1:
                return True
    return any(_nonlinear(x) for x in f.a)
