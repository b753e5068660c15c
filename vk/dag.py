"""Mathematical run of the lazily reduced transforms: every cell is a term over the inputs and the table, under the
assumption that no 32-bit value overflows; each place where that assumption is used is recorded."""
from .terms import Ctx, Lin, Undecided, Refuted
from .irexec import Exec, Obl, Region, Ptr
from . import ew

I32 = (-(1 << 31), (1 << 31) - 1)


class DagObl(Obl):
    def __init__(self, ctx):
        Obl.__init__(self)
        self.ctx = ctx

    def fail(self, kind, msg, **kw):
        if kind == 'overflow' and 'term' in kw:
            self.ctx.need(kw['term'], kw['bits'])
            self.ok('overflow (recorded)')
            return
        Obl.fail(self, kind, msg, **kw)


class DagCtx(Ctx):
    """cutting: stored sums become atoms of their own; otherwise terms are expanded down to the inputs."""

    def __init__(self, cutting=True):
        Ctx.__init__(self)
        self.needs = {}          # (key, bits) -> term: values that must fit
        self.docut = cutting

    def need(self, L, bits):
        self.needs.setdefault((self.key(L), bits), L)

    def _view(self, x, N, base):
        if type(x) is int:
            return Ctx._view(self, x, N, base)
        lo, hi = self.range(x)
        if base <= lo and hi < base + (1 << N):
            return x
        if base < 0:
            self.need(x, N)
            return x
        return Ctx._view(self, x, N, base)

    def cut(self, L, maxterms=1):
        if type(L) is int or not self.docut or len(L.t) <= maxterms and L.c == 0:
            return L
        lo, hi = self.range(L)
        if lo < I32[0] or hi > I32[1]:
            self.need(L, 32)
        a = self._mk(('cut', self.key(L)), 'cut', (L,), max(lo, I32[0]), min(hi, I32[1]), 0)
        return self.lin(a)


def redterm(c, z):
    """3*(z mod 4096) - floor(z/4096)"""
    q = c.floordiv(z, 4096)
    return c.sub(c.mulc(z, 3), c.mulc(q, 12289))


def table(c, n, ones, name='p'):
    """ones: indices whose entry is the constant 1/3 = -4096."""
    return Region(name, 2, [-4096 if i in ones else c.var('%s%d' % (name, i), -32768, 32767) for i in range(n)], False)


def powers(n):
    t, out = 1, set()
    while t < n:
        out.add(t)
        t *= 2
    return out


def run_real(name, n, p, c, src='ntt_red.c', inr=I32):
    """-> cells after the transform, as terms."""
    obl = DagObl(c)
    a = Region('a', 4, [c.var('a%d' % i, *inr) for i in range(n)])
    a.cutting = True
    ex = Exec(ew.modules(src), c, obl)
    ex.call(name, [Ptr(a, 0), n, Ptr(p, 0)])
    if obl.fails:
        raise Undecided(obl.fails[0]['msg'])
    return a.cells, obl


def split(c, L):
    """L as (list of (coefficient, atom)), list of (coefficient, argument z) with L = sum + sum k*red(z), constant)."""
    rest = L
    reds = []
    for a, k in L.t.items():
        if a.kind == 'fdiv' and a.args[1] == 4096:
            if k % 12289:
                raise Undecided('quotient with coefficient %d' % k)
            m = -k // 12289
            reds.append((m, a.args[0]))
            rest = c.sub(rest, c.mulc(redterm(c, a.args[0]), m))
        elif a.kind == 'fdiv':
            # floor(g*y/4096) is normalised to floor(y/(4096/g))
            raise Undecided('quotient by %d' % a.args[1])
    if type(rest) is int:
        return [], reds, rest
    return [(k, a) for a, k in rest.t.items()], reds, rest.c


def level(c, a, memo):
    """Number of rounds behind a cut point."""
    if a.kind == 'var':
        return 0
    if a in memo:
        return memo[a]
    if a.kind != 'cut':
        raise Undecided('level')
    L, out = a.args[0], 0
    todo = list(L.t)
    while todo:
        b = todo.pop()
        if b.kind in ('var', 'cut'):
            out = max(out, level(c, b, memo))
        else:
            for x in b.args:
                if isinstance(x, Lin):
                    todo += list(x.t)
    memo[a] = out + 1
    return out + 1


def link(name, n):
    """The rounds of a real transform are butterflies whose multipliers are the table entries of that round:
    Cooley-Tukey u +- red(w*v), Gentleman-Sande u + v and red(w*(u - v)), u and v values of the round before.
    -> number of obligations; raises Undecided when the structure is not recognised."""
    gs = '_gs_' in name
    c = DagCtx()
    p = table(c, n, powers(n) if name.startswith('ntt_') else ())
    cells, obl = run_real(name, n, p, c)
    lg = n.bit_length() - 1
    memo, cnt = {}, 0
    seen, todo, WS = set(), [], {}
    pn = {'p%d' % i for i in range(n)}
    for v in cells:
        if not isinstance(v, Lin) or len(v.t) != 1 or v.c or list(v.t.values()) != [1]:
            raise Undecided('output is not a butterfly result')
        a, = v.t
        if level(c, a, memo) != lg:
            raise Undecided('output after %d rounds' % level(c, a, memo))
        todo.append(a)
    while todo:
        a = todo.pop()
        if a in seen or a.kind == 'var':
            continue
        seen.add(a)
        k = level(c, a, memo)
        t = n >> k if gs else 1 << (k - 1)
        if k not in WS:
            WS[k] = set(next(iter(p.cells[t + j].t)) if isinstance(p.cells[t + j], Lin) else -4096 for j in range(t))
        W = WS[k]
        lin, reds, const = split(c, a.args[0])
        base = lambda x: x.kind in ('var', 'cut') and x.name not in pn and level(c, x, memo) == k - 1
        ok = const == 0
        for m, x in lin:
            ok = ok and base(x) and abs(m) == 1
            todo.append(x)
        args = []
        for m, z in reds:
            ok = ok and abs(m) == 1 and isinstance(z, Lin) and len(z.t) == 1 and z.c == 0
            if not ok:
                break
            (pr, kk), = z.t.items()
            ok = ok and pr.kind == 'mul' and abs(kk) == 1
            if not ok:
                break
            xs = [x for x in pr.args if len(x.t) == 1 and next(iter(x.t)) in W]
            ys = [x for x in pr.args if not (len(x.t) == 1 and next(iter(x.t)) in W)]
            ok = ok and len(xs) == 1 and len(ys) == 1
            if not ok:
                break
            args.append(c.mulc(ys[0], kk))
        if not ok:
            raise Undecided('round %d is not a butterfly' % k)
        if gs:
            # u + v;  red(w*(u-v));  or u - v when the multiplier is 1/3
            if args:
                ok = len(args) == 1 and not lin and reds[0][0] == 1 and difference(args[0], base)
                todo += list(args[0].t)
            else:
                ok = len(lin) == 2 and (lin[0][0] + lin[1][0] == 2 or (lin[0][0] + lin[1][0] == 0 and -4096 in W))
        else:
            if args:
                ok = len(args) == 1 and len(lin) == 1 and lin[0][0] == 1 and single(args[0], base)
                todo += list(args[0].t)
            else:
                ok = len(lin) == 2 and max(lin[0][0], lin[1][0]) == 1 and -4096 in W
        if not ok:
            raise Undecided('round %d is not a butterfly of its table entries' % k)
        cnt += 1
    return cnt


def single(L, base):
    if len(L.t) != 1 or L.c:
        return False
    (a, k), = L.t.items()
    return abs(k) == 1 and base(a)


def difference(L, base):
    return len(L.t) == 2 and L.c == 0 and sorted(L.t.values()) == [-1, 1] and all(base(a) for a in L.t)
