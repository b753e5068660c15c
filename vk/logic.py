"""Discharging side conditions with z3: translation of terms to integer arithmetic."""
import time
import z3
from .terms import Lin, Undecided

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class Tr:
    """Translates terms of one context to z3 integers; collects the definitions of the atoms used."""

    def __init__(self, ctx, expand_cuts=False):
        self.ctx = ctx
        self.vars = {}
        self.defs = []
        self.expand = expand_cuts

    def lin(self, L):
        if type(L) is int:
            return z3.IntVal(L)
        ts = [self.atom(a) * k if k != 1 else self.atom(a) for a, k in L.t.items()]
        if L.c or not ts:
            ts.append(z3.IntVal(L.c))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def atom(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        v = z3.Int('t%d_%s' % (a.id, a.name or a.kind))
        self.vars[a] = v
        D = self.defs
        D.append(v >= a.lo)
        D.append(v <= a.hi)
        k = a.kind
        if k == 'fdiv':
            x, d = a.args
            x = self.lin(x)
            D += [d * v <= x, x <= d * v + (d - 1)]
        elif k == 'tdiv':
            x, d = a.args
            x = self.lin(x)
            D.append(z3.If(x >= 0, z3.And(d * v <= x, x <= d * v + (d - 1)), z3.And(d * v >= x, x >= d * v - (d - 1))))
        elif k == 'neg':
            D.append(v == z3.If(self.lin(a.args[0]) < 0, 1, 0))
        elif k == 'eqz':
            D.append(v == z3.If(self.lin(a.args[0]) == 0, 1, 0))
        elif k == 'ite':
            b, x, y = a.args
            D.append(v == z3.If(self.lin(b) == 1, self.lin(x), self.lin(y)))
        elif k == 'mul':
            x, y = a.args
            done = False
            for p, q in ((x, y), (y, x)):
                if self.ctx.range(p)[0] >= 0 and self.ctx.range(p)[1] <= 1:
                    D.append(v == z3.If(self.lin(p) == 1, self.lin(q), 0))
                    done = True
                    break
            if not done:
                D.append(v == self.lin(x) * self.lin(y))
        elif k == 'cut' and self.expand:
            D.append(v == self.lin(a.args[0]))
        return v


def solve(ctx, hyps, goal_neg, timeout=5000, expand_cuts=False):
    """Satisfiability of hyps & goal_neg (functions of the translator giving z3 formulas).
    Returns 'unsat', ('sat', model-as-dict) or 'unknown'."""
    t = Tr(ctx, expand_cuts)
    fs = [h(t) for h in hyps] + [goal_neg(t)]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*t.defs)
    s.add(*fs)
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat'
    if r == z3.sat:
        m = s.model()
        env = {}
        for a, v in t.vars.items():
            x = m.eval(v, model_completion=True)
            try:
                env[a] = x.as_long()
            except Exception:
                pass
        return ('sat', env)
    STATS['unknown'] += 1
    return 'unknown'


def path_hyps(pathc):
    return [(lambda t, b=b, v=v: t.lin(b) == v) for b, v in pathc]


def prove(ctx, hyps, goal, timeout=5000, expand_cuts=False):
    """True when hyps entail goal."""
    r = solve(ctx, hyps, lambda t: z3.Not(goal(t)), timeout, expand_cuts)
    return r == 'unsat'


def prove_zero(ctx, hyps, L, **kw):
    if type(L) is int:
        return L == 0
    lo, hi = ctx.range(L)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return False
    return prove(ctx, hyps, lambda t: t.lin(L) == 0, **kw)
