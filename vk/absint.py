"""C13: the interval versions of the lazily reduced transforms and array operations.

Every interval object of the analysis carries a ghost value: the concrete value it stands for.  The contracts of
intervals.c (proved by C12) say that the interval of a result contains the ghost value of the result whenever the
intervals of the arguments contain theirs.  So, if the ghost value of the object that the analysis leaves at a[i] is
the very term that the real routine leaves at a[i], its interval contains every value the real routine can produce.
For overflow: every 32-bit value the real transform computes must be the ghost value of an object whose bounds the
analysis compares with the 32-bit range, and a message must be printed whenever they are outside."""
import z3
from . import build, dag, ew, logic
from .dag import DagCtx, DagObl, redterm, I32
from .irexec import Exec, Region, Ptr, ipdoms, NULL
from .terms import Lin, Undecided, Refuted

Q = 12289
I64 = (-(1 << 63), (1 << 63) - 1)
SRC = 'ntt_red_interval.c'


class Dead(Exception):
    pass


class Iv(Region):
    """An interval object: cells min, max; shadow: the concrete value it stands for."""

    def __init__(self, ctx, k, shadow, lim=I64, writable=True):
        Region.__init__(self, 'interval%d' % k, 8, [ctx.var('min%d' % k, *lim), ctx.var('max%d' % k, *lim)], writable)
        self.k, self.shadow = k, shadow
        self.min0, self.max0 = self.cells


class AExec(Exec):
    def __init__(self, mod, ctx, obl):
        Exec.__init__(self, mod, ctx, obl, contracts=self.table(), externs=self.ext())
        self.objs = []
        self.events = []            # (path condition, text)
        self.assume = []
        self.arrays = set()
        self.reports = {}           # object -> index of the last event that mentions it

    # ------------------------------------------------------------ contracts of intervals.c
    def new(self, shadow, lim=I64):
        o = Iv(self.ctx, len(self.objs), shadow, lim)
        self.objs.append(o)
        return Ptr(o, 0)

    def arg(self, p, fn):
        if not isinstance(p, Ptr) or not isinstance(p.r, Iv) or p.o != 0:
            if isinstance(p, Ptr) and p.r is None:
                self.obl.fail('memory', 'null interval passed to ' + fn)
                raise Refuted('null')
            raise Undecided('argument of ' + fn)
        if p.r.freed:
            self.obl.fail('memory', 'deleted interval used by ' + fn)
            raise Refuted('use after free')
        if p.r.cells[0] is not p.r.min0 or p.r.cells[1] is not p.r.max0:
            raise Undecided('interval modified in place')
        self.obl.ok('contract')
        return p.r.shadow

    def table(self):
        return {
            'add': lambda ex, a: ex.new(ex.ctx.add(ex.arg(a[0], 'add'), ex.arg(a[1], 'add'))),
            'sub': lambda ex, a: ex.new(ex.ctx.sub(ex.arg(a[0], 'sub'), ex.arg(a[1], 'sub'))),
            'neg': lambda ex, a: ex.new(ex.ctx.neg(ex.arg(a[0], 'neg'))),
            'red': lambda ex, a: ex.new(redterm(ex.ctx, ex.arg(a[0], 'red'))),
            'red_twice': lambda ex, a: ex.new(redterm(ex.ctx, redterm(ex.ctx, ex.arg(a[0], 'red_twice')))),
            'red_scale': lambda ex, a: ex.new(redterm(ex.ctx, ex.ctx.mul(ex.ctx.signed(a[0], 64), ex.arg(a[1], 'red_scale')))),
            'red_mul': lambda ex, a: ex.new(redterm(ex.ctx, ex.ctx.mul(ex.arg(a[0], 'red_mul'), ex.arg(a[1], 'red_mul')))),
            'normal': lambda ex, a: ex.new(modq(ex.ctx, ex.arg(a[0], 'normal'))),
            'normal_inv3': lambda ex, a: ex.new(modq(ex.ctx, ex.ctx.mulc(ex.arg(a[0], 'normal_inv3'), 8193))),
            'shift': lambda ex, a: ex.new(shiftq(ex.ctx, ex.within(a[0], 0, Q - 1, 'shift'))),
            'correct': lambda ex, a: ex.new(correctq(ex.ctx, ex.within(a[0], -Q, 2 * Q - 1, 'correct'))),
            'point': lambda ex, a: ex.new(ex.ctx.signed(a[0], 64)),
            'delete_interval': lambda ex, a: ex.delete(a[0]),
            'free': lambda ex, a: ex.delete(a[0]),
        }

    def delete(self, p):
        if isinstance(p, Ptr) and p.r is None:
            return None
        if self.pathc:
            raise Undecided('conditional release')
        self.arg(p, 'delete_interval')
        p.r.freed = True
        return None

    def within(self, p, lo, hi, fn):
        """Precondition: the interval lies in [lo, hi]."""
        s = self.arg(p, fn)
        o = p.r
        c = self.ctx
        if c.range(o.cells[0])[0] >= lo and c.range(o.cells[1])[1] <= hi:
            self.obl.ok('contract')
            return s
        facts = [(b, v) for b, v in self.assume + self.pathc if vars_of(b) <= {o.cells[0], o.cells[1]} or vars_of(b) <= atoms(o)]
        tr = logic.Tr(c)
        mn, mx = tr.lin(o.cells[0]), tr.lin(o.cells[1])
        fs = [tr.lin(b) == v for b, v in facts]
        r = check([*fs, *tr.defs, mn <= mx, z3.Or(mn < lo, mx > hi)])
        self.obl.check(r == z3.unsat, 'contract', 'precondition of %s: the interval lies in [%d,%d]' % (fn, lo, hi))
        return s

    # ------------------------------------------------------------ output
    def ext(self):
        def pr(k):
            def f(ex, args):
                ex.event(args[k:])
                return ex.ctx.var('printed%d' % len(ex.events), -(1 << 31), (1 << 31) - 1)
            return f

        def end(ex, args):
            ex.events.append((list(ex.pathc), 'stop'))
            raise Dead()
        nop = lambda ex, args: ex.ctx.var('status%d' % id(args), -(1 << 31), (1 << 31) - 1)
        return {'printf': pr(0), 'fprintf': pr(1), 'puts': pr(0), 'fputs': pr(0), 'putchar': nop, 'fflush': nop, 'fputc': nop,
                'exit': end, 'abort': end}

    def event(self, args):
        txt = ''
        for a in args:
            if isinstance(a, Ptr) and a.r is not None and a.r.es == 1:
                cs = a.r.cells[a.o:]
                txt += bytes(x & 255 for x in cs if type(x) is int and x).decode('latin1')
        if self.pathc:
            self.events.append((list(self.pathc), txt))

    def global_region(self, name):
        if name in ('stderr', 'stdout', 'stdin') and name not in self.globals:
            self.globals[name] = Region('@' + name, 8, [NULL])
        return Exec.global_region(self, name)

    # ------------------------------------------------------------ memory
    def store(self, p, size, v, where):
        if isinstance(v, Ptr) and isinstance(v.r, Iv) and isinstance(p, Ptr) and p.r in self.arrays:
            v.r.shadow = self.ctx.cut(v.r.shadow)
        if isinstance(p, Ptr) and isinstance(p.r, Iv):
            raise Undecided('interval modified in place')
        return Exec.store(self, p, size, v, where)

    def fork(self, f, env, lb, c, targets, until):
        """As in Exec, with paths that stop the program."""
        outer = self.journal
        ip = ipdoms(f)[lb]
        dead = []
        for v, tgt in ((1, targets[0]), (0, targets[1])):
            if self.stops(f, tgt):
                dead.append(v)
        if len(dead) == 1:
            v = dead[0]
            self.journal = []
            self.pathc.append((c, v))
            try:
                self.run(f, list(env), targets[0] if v else targets[1], lb, None)
                raise Undecided('path that should stop returns')
            except Dead:
                pass
            finally:
                self.pathc.pop()
                for reg, i, old in reversed(self.journal):
                    reg.cells[i] = old
                self.journal = outer
            self.assume.append((c, 1 - v))
            return 'at', targets[1] if v else targets[0], lb
        return Exec.fork(self, f, env, lb, c, targets, until)

    def stops(self, f, lb):
        """Every path from block lb ends in unreachable."""
        seen, todo = set(), [lb]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            last = f.blocks[x][-1]
            if last.op == 'ret':
                return False
            if last.op == 'br':
                todo += list(last.x)
            elif last.op == 'switch':
                return False
        return True


def atoms(o):
    return set(o.min0.t) | set(o.max0.t)


def vars_of(L):
    out = set()
    todo = [L]
    while todo:
        x = todo.pop()
        if not isinstance(x, Lin):
            continue
        for a in x.t:
            if a.kind == 'var':
                out.add(a)
            else:
                todo += list(a.args)
    return out


def check(fs):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*fs)
    import time
    t = time.time()
    r = s.check()
    logic.STATS['queries'] += 1
    logic.STATS['time'] += time.time() - t
    return r


def modq(c, x):
    return c.sub(x, c.mulc(c.floordiv(x, Q), Q))


def shiftq(c, x):
    return c.ite(c.isneg(c.sub((Q - 1) // 2, x)), c.sub(x, Q), x)


def correctq(c, x):
    return c.ite(c.isneg(x), c.add(x, Q), c.ite(c.isneg(c.sub(Q - 1, x)), c.sub(x, Q), x))


# ---------------------------------------------------------------- transforms
def run_abstract(name, n, c, acells, args, lim=I64):
    """Runs the abstract routine on an array of interval objects standing for the terms acells."""
    obl = DagObl(c)
    ex = AExec(ew.modules(SRC), c, obl)
    a = Region('a', 8, [ex.new(t, lim) for t in acells])
    ex.arrays.add(a)
    ex.a = a
    ex.call(name, [Ptr(a, 0), n] + args(ex))
    return ex, a, obl


def reported(ex):
    """ids of the objects for which bounds outside the 32-bit range are always reported."""
    by = {}
    owner = {}
    for o in ex.objs:
        for x in atoms(o):
            owner[x] = o
    for pc, txt in ex.events:
        if txt == 'stop' or 'overflow' not in txt.lower():
            continue
        vs = set()
        for b, v in pc:
            vs |= vars_of(b)
        os_ = {owner.get(x) for x in vs}
        if len(os_) == 1 and None not in os_:
            by.setdefault(os_.pop(), []).append(pc)
    cache, out, q = {}, set(), 0
    c = ex.ctx
    for o, pcs in by.items():
        sig = tuple(sorted(tuple((shape(b, o), v) for b, v in pc) for pc in pcs))
        if sig not in cache:
            tr = logic.Tr(c)
            mn, mx = tr.lin(o.min0), tr.lin(o.max0)
            ev = z3.Or([z3.And([tr.lin(b) == v for b, v in pc]) for pc in pcs])
            cache[sig] = check([*tr.defs, mn <= mx, z3.Or(mn < I32[0], mx > I32[1]), z3.Not(ev)]) == z3.unsat
            q += 1
        if cache[sig]:
            out.add(o)
    return out


def shape(L, o):
    """Structure of a condition over the bounds of o, with the bounds renamed."""
    if not isinstance(L, Lin):
        return L
    out = []
    for a, k in L.t.items():
        if a in o.min0.t:
            s = 'min'
        elif a in o.max0.t:
            s = 'max'
        else:
            s = (a.kind,) + tuple(shape(x, o) for x in a.args)
        out.append((repr(s), k))
    return tuple(sorted(out)), L.c


def prove_transform(name, n, cutting=True):
    """name: the real transform; both abstract versions."""
    if not cutting:
        return prove_transform_(name, n, False)
    try:
        return prove_transform_(name, n, True)
    except (Undecided, Refuted):
        if n > 64:
            raise
        return prove_transform_(name, n, False)


class Out:
    def __init__(self):
        self.obls = []

    def count(self, obl):
        for k, v in obl.count.items():
            self.obls += [({'memory': 'inside the arrays'}.get(k, k), True, None)] * v


def prove_transform_(name, n, cutting):
    out = Out()
    for v2 in (False, True):
        c = DagCtx(cutting)
        p = dag.table(c, n, ())
        real, robl = dag.run_real(name, n, p, c)
        needs = dict(c.needs)
        inputs = [c.var('a%d' % i, *I32) for i in range(n)]
        an = ('abstract2_' if v2 else 'abstract_') + name

        def args(ex):
            if not v2:
                return [Ptr(p, 0)]
            return [Ptr(Region('p', 8, [ex.new(t) for t in p.cells], False), 0)]
        ex, a, obl = run_abstract(an, n, c, inputs, args)
        if obl.fails:
            raise Refuted(obl.fails[0]['msg'])
        rep = reported(ex)
        seen = {}
        for o in rep:
            seen.setdefault(c.key(o.shadow), o)
            seen.setdefault(c.key(body(o.shadow)), o)
        for i in range(n):
            x = a.cells[i]
            if not isinstance(x, Ptr) or not isinstance(x.r, Iv) or x.r.freed:
                raise Refuted('%s: a[%d] is not a live interval' % (an, i))
            if c.key(x.r.shadow) != c.key(real[i]):
                raise Refuted('%s: a[%d] stands for a value other than the one %s computes' % (an, i, name))
            out.obls.append(('%s: a[i] stands for the value the real transform leaves there' % an, True, None))
        checked = [(o, o.shadow) for o in rep]
        pairs = None
        for (k, bits), L in needs.items():
            if bits != 32:
                raise Undecided('%d-bit value' % bits)
            ok = k in seen
            if not ok:
                lo, hi = c.range(L)
                ok = lo >= I32[0] and hi <= I32[1]
            if not ok:
                if pairs is None:
                    pairs = halfdiffs(c, checked, cutting)
                ok = k in pairs
            if not ok:
                raise Refuted('%s: a 32-bit value of %s is not checked for overflow' % (an, name))
            out.obls.append(('%s: overflow of every 32-bit value of the real transform is reported' % an, True, None))
        out.count(obl)
        out.count(robl)
    return out


def halfdiffs(c, checked, cutting):
    """Keys of T where y+T and y-T are both checked: |T| >= 2^31 puts one of them outside the 32-bit range."""
    by = {}
    for o, s in checked:
        L = body(s)
        if not isinstance(L, Lin):
            continue
        # group by the quotient atoms up to sign: y + T and y - T share them
        for a in L.t:
            if a.kind == 'fdiv':
                by.setdefault(a, []).append(L)
    out = set()
    for a, Ls in by.items():
        if len(Ls) > 64:
            Ls = Ls[:64]
        for i in range(len(Ls)):
            for j in range(len(Ls)):
                if i != j:
                    D = c.sub(Ls[i], Ls[j])
                    if isinstance(D, Lin) and D.c % 2 == 0 and all(k % 2 == 0 for k in D.t.values()):
                        out.add(c.key(Lin({x: k // 2 for x, k in D.t.items()}, D.c // 2)))
    return out


def body(s):
    if isinstance(s, Lin) and len(s.t) == 1 and s.c == 0:
        (a, k), = s.t.items()
        if a.kind == 'cut' and k == 1:
            return a.args[0]
    return s


# ---------------------------------------------------------------- array operations
def ops():
    """name, argument kind, input range of the real routine"""
    return [('normalize', 'u', I32), ('normalize_inv3', 'u', I32), ('shift_array', 'u', (0, Q - 1)), ('reduce_array', 'u', I32), ('reduce_array_twice', 'u', I32),
            ('correct', 'u', (-Q, 2 * Q - 1)), ('mul_reduce_array16', 'p', I32), ('mul_reduce_array', 'ab', I32), ('scalar_mul_reduce_array', 's', I32)]


def prove_op(name, kind, rng, n):
    out = Out()
    c = DagCtx(False)
    an = 'abstract_' + name
    av = [c.var('a%d' % i, *rng) for i in range(n)]
    bv = [c.var('b%d' % i, *I32) for i in range(n)]
    p = Region('p', 2, [c.var('p%d' % i, -32768, 32767) for i in range(n)], False)
    k = c.var('k', *I32)
    a = Region('a', 4, list(av), kind != 'ab')
    b = Region('b', 4, list(bv), False)
    d = Region('c', 4, [None] * n)
    obl = DagObl(c)
    ex = Exec(ew.modules('ntt_red.c'), c, obl)
    ra = {'u': lambda: [Ptr(a, 0), n], 'p': lambda: [Ptr(a, 0), n, Ptr(p, 0)], 's': lambda: [Ptr(a, 0), n, k], 'ab': lambda: [Ptr(d, 0), n, Ptr(a, 0), Ptr(b, 0)]}[kind]()
    ex.call(name, ra)
    if obl.fails:
        raise Undecided(obl.fails[0]['msg'])
    real = d.cells if kind == 'ab' else a.cells
    obl2 = DagObl(c)
    ax = AExec(ew.modules(SRC), c, obl2)
    A = Region('a', 8, [ax.new(t, rng if name == 'shift_array' else I64) for t in av], kind != 'ab')
    if kind == 'ab':
        B = Region('b', 8, [ax.new(t) for t in bv], False)
        R = Region('c', 8, [None] * n)
        ax.call(an, [Ptr(R, 0), n, Ptr(A, 0), Ptr(B, 0)])
    else:
        R = A
        ax.call(an, [Ptr(A, 0), n] + ([Ptr(p, 0)] if kind == 'p' else [k] if kind == 's' else []))
    if obl2.fails:
        raise Refuted(obl2.fails[0]['msg'])
    for i in range(n):
        x = R.cells[i]
        if not isinstance(x, Ptr) or not isinstance(x.r, Iv) or x.r.freed:
            raise Refuted('%s: [%d] is not a live interval' % (an, i))
        s = x.r.shadow
        if c.key(s) == c.key(real[i]):
            ok = True
        else:
            tr = logic.Tr(c)
            e = tr.lin(c.sub(s, real[i])) != 0
            r = check([*tr.defs, e])
            if r == z3.unknown:
                raise Undecided('solver')
            ok = r == z3.unsat
        if not ok:
            raise Refuted('%s: element %d stands for a value other than the one %s computes' % (an, i, name))
        out.obls.append(('%s: the element stands for the value the real routine computes' % an, True, None))
    out.count(obl)
    out.count(obl2)
    return out
