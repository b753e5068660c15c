"""Contracts of the element-wise array operations, for every array length.

An operation f writes out[i] = F(a[i], b[i] or p[i] or s) for every i < n and nothing else.
The contract gives the precondition on the operands, the residue of F and its range."""
import time
import numpy as np
import z3
from .terms import Ctx, Lin, Q, Undecided, Refuted, MF
from .irexec import Exec, Obl, Region, Ptr
from .induct import SymRegion, subst, mentions, same
from . import build, logic

I32 = (-(1 << 31), (1 << 31) - 1)
I16 = (-32768, 32767)
CAN = (0, Q - 1)
SYM = (-6144, 6144)
PROD = (-8796042698752, 8796093026303)


class EW:
    """kind: 'u' f(a,n); 'p' f(a,n,p) p 16-bit; 'ab' f(c,n,a,b); 's' f(a,n,s).
    coef: residue factor; exact=(lo,hi) output range."""

    def __init__(self, name, kind, xr, yr, coef, out, clip=None, src=None, q=False, alias=None, tag='', p_unsigned=False, mult=1, spec=None):
        self.name, self.kind, self.xr, self.yr = name, kind, xr, yr
        self.coef, self.out, self.clip = coef, out, clip
        self.src = src
        self.q = q
        self.alias = alias
        self.tag = tag
        self.p_unsigned = p_unsigned
        self.mult = mult
        self.asm = src == 'asm'

    def label(self):
        s = 'operand in [%d,%d]' % self.xr
        if self.yr:
            s += ', second in [%d,%d]' % self.yr
        if self.clip:
            s += ', product in [%d,%d]' % self.clip
        if self.alias:
            s += ', aliasing ' + self.alias
        return s


def red_contracts():
    out = []
    for sfx, src, m in (('', 'ntt_red.c', 1), ('_asm', 'asm', 16), ('_asm2', 'asm', 16)):
        def add(name, *a, **kw):
            out.append(EW(name + sfx, *a, src=src, mult=m, **kw))
        if sfx == '':
            add('normalize', 'u', I32, None, 1, CAN)
            add('normalize_inv3', 'u', I32, None, 8193, CAN)
        if sfx != '_asm2':
            add('shift_array', 'u', CAN, None, 1, SYM)
            add('correct', 'u', (-Q, 2 * Q - 1), None, 1, CAN)
        add('reduce_array', 'u', I32, None, 3, (-524287, 536573))
        add('reduce_array_twice', 'u', I32, None, 9, (-130, 12413))
        add('mul_reduce_array16', 'p', CAN, CAN, 3, (-36864, 12285))
        add('mul_reduce_array16', 'p', SYM, SYM, 3, (-9216, 21499))
        add('mul_reduce_array16', 'p', I32, I16, 3, I32, clip=PROD)
        if sfx != '_asm2':
            for al in (None, 'c=a', 'c=b', 'a=b', 'c=a=b'):
                add('mul_reduce_array', 'ab', I32, I32, 3, I32, clip=PROD, alias=al)
            add('scalar_mul_reduce_array', 's', I32, I32, 3, I32, clip=PROD)
    return out


def mul_contracts():
    out = []
    for sfx, src, q in (('', 'ntt.c', False), ('_naive', 'naive_ntt.c', True)):
        def add(name, *a, **kw):
            out.append(EW(name + sfx, *a, src=src, q=q, p_unsigned=True, **kw))
        add('mul_array16', 'p', CAN, CAN, 1, CAN)
        for al in (None, 'c=a', 'c=b', 'a=b', 'c=a=b'):
            add('mul_array', 'ab', CAN, CAN, 1, CAN, alias=al)
        add('scalar_mul_array', 's', CAN, CAN, 1, CAN)
        if q:
            S = (-(Q - 1), Q - 1)
            add('mul_array16', 'p', S, CAN, 1, S)
            for al in (None, 'c=a', 'c=b', 'a=b', 'c=a=b'):
                add('mul_array', 'ab', S, S, 1, S, alias=al)
            add('scalar_mul_array', 's', S, S, 1, S)
    return out


class Result:
    def __init__(self):
        self.obl = Obl()
        self.problems = []      # (definite?, text)
        self.undecided = None
        self.expr = None
        self.ctx = None
        self.extra = 0


def executor(ct, ctx, obl, mods):
    if ct.asm:
        from .x86 import X86
        return X86(ctx, obl)
    return Exec(mods(ct.src), ctx, obl)


_mods = {}


def modules(src):
    if src not in _mods:
        _mods[src] = build.module(src)
    return _mods[src]


def setup(ct, ctx, n, sym=True, garbage=False):
    """Regions and arguments of a call."""
    def reg(name, es, rng, writable):
        if sym:
            return SymRegion(name, es, ctx.mulc(n, es), rng[0], rng[1], writable)
        return Region(name, es, [ctx.var('%s[%d]' % (name, i), rng[0], rng[1]) for i in range(n)], writable)
    nn = n
    if garbage:
        nn = ctx.add(n, ctx.mulc(ctx.var('garbage', 0, (1 << 32) - 1), 1 << 32))
    if ct.kind == 'u':
        a = reg('a', 4, ct.xr, True)
        return [a], [Ptr(a, 0), nn], a, {'x': a}
    if ct.kind == 'p':
        a = reg('a', 4, ct.xr, True)
        p = reg('p', 2, ct.yr, False)
        return [a, p], [Ptr(a, 0), nn, Ptr(p, 0)], a, {'x': a, 'y': p}
    if ct.kind == 's':
        a = reg('a', 4, ct.xr, True)
        s = ctx.var('s', *ct.yr)
        return [a], [Ptr(a, 0), nn, s], a, {'x': a, 'y': s}
    al = ct.alias
    if al is None:
        c, a, b = reg('c', 4, I32, True), reg('a', 4, ct.xr, False), reg('b', 4, ct.yr, False)
    elif al == 'c=a':
        c = a = reg('a', 4, ct.xr, True)
        b = reg('b', 4, ct.yr, False)
    elif al == 'c=b':
        c = b = reg('b', 4, ct.yr, True)
        a = reg('a', 4, ct.xr, False)
    elif al == 'a=b':
        c = reg('c', 4, I32, True)
        a = b = reg('a', 4, ct.xr, False)
    else:
        c = a = b = reg('a', 4, ct.xr, True)
    regs = []
    for r in (c, a, b):
        if r not in regs:
            regs.append(r)
    return regs, [Ptr(c, 0), nn, Ptr(a, 0), Ptr(b, 0)], c, {'x': a, 'y': b}


def varset(L, acc, memo):
    if not isinstance(L, Lin):
        return
    for a in L.t:
        if a in memo:
            continue
        memo.add(a)
        if a.kind == 'var':
            acc.add(a)
        elif a.args:
            for x in a.args:
                varset(x, acc, memo)


def rename(c, L, mp, memo=None):
    """Rebuild a term with renamed variables."""
    if not isinstance(L, Lin):
        return L
    if memo is None:
        memo = {}
    r = L.c
    for b, k in L.t.items():
        v = memo.get(b)
        if v is None:
            if b.kind == 'var':
                v = mp.get(b, c.lin(b))
            else:
                args = [rename(c, x, mp, memo) if isinstance(x, Lin) else x for x in b.args]
                if b.kind == 'cut':
                    v = args[0]
                elif b.kind == 'and':
                    v = c.bit2('and', args[0], args[1], args[2])
                else:
                    v = {'fdiv': c.floordiv, 'tdiv': c.tdiv, 'neg': c.isneg, 'eqz': c.iszero, 'mul': c.mul, 'ite': c.ite}[b.kind](*args)
            memo[b] = v
        r = c.add(r, c.mulc(v, k))
    return r


def expected(ct, ctx, X, Y):
    return ctx.mulc(X if ct.kind == 'u' else ctx.mul(X, Y), ct.coef)


def check_value(ct, res, ctx, v, X, Y, where):
    """Postcondition of one element."""
    lo, hi = ctx.range(v)
    if lo < ct.out[0] or hi > ct.out[1]:
        ok = False
        dom = dom_eval(ct, ctx, v, X, Y)
        if dom is not None:
            ok = dom[0] >= ct.out[0] and dom[1] <= ct.out[1]
            lo, hi = dom
        if not ok:
            res.problems.append((dom is not None, '%s: result range [%d,%d] not within [%d,%d]' % (where, lo, hi, *ct.out)))
    res.extra += 1
    try:
        d = ctx.sub(v, expected(ct, ctx, X, Y))
        m = ctx.mf(d)
        clean = ctx.mf_clean(m)
        zero = not m.s and m.c is None
    except Undecided:
        clean, zero = False, False
    if not zero:
        ok = False
        if ct.kind == 'u':
            r = dom_check(ct, ctx, v, X)
            if r is True:
                ok = True
            elif r is not None:
                res.problems.append((True, '%s: wrong residue at operand %d' % (where, r)))
                return
        if not ok:
            res.problems.append((clean, '%s: residue is not %d times the %s' % (where, ct.coef, 'operand' if ct.kind == 'u' else 'product')))
    res.extra += 1


def dom_eval(ct, ctx, v, X, Y):
    """Exact range by exhaustive evaluation of the term over a small operand domain."""
    nx = ct.xr[1] - ct.xr[0] + 1
    if ct.kind == 'u' or Y is X:
        if nx > 1 << 20:
            return None
        y = ctx.eval_np(v, {'X': np.arange(ct.xr[0], ct.xr[1] + 1)})
        return int(np.min(y)), int(np.max(y))
    ny = ct.yr[1] - ct.yr[0] + 1
    if nx * ny > 1 << 28 or ct.clip:
        return None
    key = (struct(ctx, v), ct.xr, ct.yr)
    if key in _dom:
        return _dom[key]
    xs = np.arange(ct.xr[0], ct.xr[1] + 1)
    lo = hi = None
    for y0 in range(ct.yr[0], ct.yr[1] + 1, 64):
        ys = np.arange(y0, min(y0 + 64, ct.yr[1] + 1)).reshape(-1, 1)
        z = ctx.eval_np(v, {'X': xs, 'Y': ys})
        l, h = int(z.min()), int(z.max())
        lo = l if lo is None else min(lo, l)
        hi = h if hi is None else max(hi, h)
    _dom[key] = (lo, hi)
    return lo, hi


_dom = {}


def struct(ctx, L, memo=None):
    """Structure of a term, independent of atom numbering."""
    if not isinstance(L, Lin):
        return str(L)
    memo = {} if memo is None else memo
    out = []
    for a, k in L.t.items():
        if a not in memo:
            memo[a] = a.name if a.kind == 'var' else '%s(%s)' % (a.kind, ','.join(struct(ctx, x, memo) for x in a.args))
        out.append('%d*%s' % (k, memo[a]))
    return '+'.join(sorted(out)) + '+%d' % L.c


def dom_check(ct, ctx, v, X):
    if ct.xr[1] - ct.xr[0] > 1 << 20:
        return None
    xs = np.arange(ct.xr[0], ct.xr[1] + 1)
    bad = np.nonzero((ctx.eval_np(v, {'X': xs}) - ct.coef * xs) % Q)[0]
    return int(xs[bad[0]]) if len(bad) else True


def all_n(ct, garbage=False):
    """The proof for every length."""
    res = Result()
    ctx = res.ctx = Ctx()
    ctx.mul_clip = ct.clip
    if ct.mult > 1:
        n = ctx.mulc(ctx.var('m', 1, ((1 << 32) - 1) // ct.mult), ct.mult)
    else:
        n = ctx.var('n', 0, (1 << 32) - 1)
    regs, args, out, roles = setup(ct, ctx, n, True, garbage)
    if ct.q:
        args.append(Q)
    ex = executor(ct, ctx, res.obl, modules)
    ex.inductive = regs
    try:
        ex.call(ct.name, args)
        for r in regs:
            seg, offs, init = r.flush(ctx)
            ex.trace.append(('seg', r, seg, offs, init))
        # ---- every written element satisfies the postcondition
        X, Y = ctx.var('X', *ct.xr), (ctx.var('Y', *ct.yr) if ct.yr else None)
        if ct.alias in ('a=b', 'c=a=b'):
            Y = X
        owner = {}
        for tr in ex.trace:
            for key, v in tr[4].items():
                owner[next(iter(v.t))] = (tr[1], tr[3][key])
        pats = []
        exprs = {}
        for tr in ex.trace:
            r = tr[1]
            for o, v, kv, K in tr[2]:
                if r is not out:
                    res.problems.append((True, 'writes %s' % r.name))
                    continue
                pats.append((o, kv, K))
                vs = set()
                varset(v, vs, set())
                mp = {}
                for a in vs:
                    if a.name == 's':
                        mp[a] = Y
                        continue
                    if a not in owner:
                        res.problems.append((True, 'result depends on %s' % a.name))
                        continue
                    ar, ao = owner[a]
                    d = ctx.sub(ctx.mulc(ao, 4 // ar.es), o)
                    if not (type(d) is int and d == 0):
                        res.problems.append((type(d) is int, 'element at offset %r depends on %s at %r' % (o, ar.name, ao)))
                    if ar is roles['x']:
                        mp[a] = X
                    elif ar is roles.get('y'):
                        mp[a] = Y
                    else:
                        res.problems.append((True, 'result depends on the old contents of %s' % ar.name))
                w = rename(ctx, v, mp)
                k = ctx.key(w)
                if k not in exprs:
                    exprs[k] = w
                    check_value(ct, res, ctx, w, X, Y, ct.name)
        res.expr = list(exprs.values())
        # ---- coverage: every index below n is written
        facts = list(ex.facts)
        i = z3.Int('i')

        def uncovered(t):
            cs = [i >= 0, i < t.lin(n)]
            for o, kv, K in pats:
                if kv is None:
                    cs.append(4 * i != t.lin(o))
                else:
                    ka = next(iter(kv.t))
                    s = o.t.get(ka, 0) if isinstance(o, Lin) else 0
                    o0 = subst(ctx, o, kv, 0)
                    if s == 0:
                        cs.append(z3.Or(4 * i != t.lin(o0), t.lin(K) < 1))
                        continue
                    d = 4 * i - t.lin(o0) if s > 0 else t.lin(o0) - 4 * i
                    q = z3.Int('q%d' % len(cs))
                    rr = z3.Int('r%d' % len(cs))
                    s = abs(s)
                    cs += [d == s * q + rr, rr >= 0, rr < s, z3.Or(rr != 0, q < 0, q >= t.lin(K))]
            return z3.And(cs)
        r = logic.solve(ctx, facts, uncovered, timeout=20000)
        if r != 'unsat':
            res.problems.append((False, 'not every index below n is proved to be written (%s)' % (r if r == 'unknown' else 'model')))
        res.extra += 1
    except Undecided as e:
        res.undecided = str(e)
    except Refuted as e:
        res.problems.append((True, str(e)))
    return res


def one_n(ct, n, garbage=False):
    """The proof for one concrete length (all contents)."""
    res = Result()
    ctx = res.ctx = Ctx()
    ctx.mul_clip = ct.clip
    regs, args, out, roles = setup(ct, ctx, n, False, garbage)
    if ct.q:
        args.append(Q)
    X = [c for c in roles['x'].cells]
    Y = roles.get('y')
    Y = list(Y.cells) if isinstance(Y, Region) else [Y] * n
    try:
        ex = executor(ct, ctx, res.obl, modules)
        ex.call(ct.name, args)
        seen = set()
        Xc, Yc = ctx.var('X', *ct.xr), (ctx.var('Y', *ct.yr) if ct.yr else None)
        if ct.alias in ('a=b', 'c=a=b'):
            Yc = Xc
        for i in range(n):
            v = out.cells[i]
            if not isinstance(v, (int, Lin)):
                raise Undecided('cell')
            mp = {next(iter(X[i].t)): Xc}
            if ct.kind != 'u':
                mp[next(iter(Y[i].t))] = Yc
            w = rename(ctx, v, mp)
            vs = set()
            varset(w, vs, set())
            allowed = {next(iter(Xc.t))} | ({next(iter(Yc.t))} if Yc is not None else set())
            if not vs <= allowed:
                res.problems.append((True, 'element %d depends on %s' % (i, sorted(a.name for a in vs - allowed)[:3])))
                continue
            k = ctx.key(w)
            if k in seen:
                res.extra += 2
                continue
            seen.add(k)
            check_value(ct, res, ctx, w, Xc, Yc, '%s[%d], n=%d' % (ct.name, i, n))
    except Undecided as e:
        res.undecided = str(e)
    except Refuted as e:
        res.problems.append((True, str(e)))
    return res


# ------------------------------------------------------------------ native runs
UBSAN = ('-O1', '-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero', '-fsanitize-undefined-trap-on-error')


def lib_for(ct, ub=False):
    fl = UBSAN if ub else ('-O3',)
    if ct.src == 'naive_ntt.c':
        return build.shared_lib(build.naive_sources(), fl, 'naive')
    return build.shared_lib(None, fl)


def edge(rng, lo, hi, n):
    """Random operands, biased to the boundaries."""
    v = rng.integers(lo, hi + 1, n)
    E = [lo, hi, lo + 1, hi - 1, 0, 1, -1, 4095, 4096, -4096, 6144, 6145, -6144, 12288, 12289, Q * 2, -Q, (lo + hi) // 2]
    E = np.array([e for e in E if lo <= e <= hi])
    m = rng.integers(0, 4, n) == 0
    v[m] = E[rng.integers(0, len(E), int(m.sum()))]
    return v


_dict = {}


def constants(src, name):
    """Integer constants in the IR of a function and of the functions it calls."""
    key = (src, name)
    if key not in _dict:
        out, seen, todo = set(), set(), [name]
        try:
            funcs = build.module(src).funcs
        except build.BuildError:
            funcs = {}

        def walk(v):
            if type(v) is int:
                out.add(v)
                for N in (16, 32, 64):
                    if v >= 1 << (N - 1):
                        out.add(v - (1 << N))
            elif isinstance(v, (tuple, list)):
                for u in v:
                    walk(u)
        while todo:
            f = funcs.get(todo.pop())
            if f is None or f.name in seen:
                continue
            seen.add(f.name)
            for lb in f.order:
                for ins in f.blocks[lb]:
                    walk(ins.a)
                    if ins.op == 'call' and ins.x and ins.x[0] == 'g':
                        todo.append(ins.x[1])
        _dict[key] = out
    return _dict[key]


def corner_values(cs, lo, hi):
    E = {lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, 0}
    for k in range(33):
        for d in (-1, 0, 1):
            E |= {(1 << k) + d, -(1 << k) + d}
    for k in range(-4, 5):
        for d in (-1, 0, 1):
            E |= {k * Q + d, k * (Q // 2) + d}
    for c in cs:
        for d in (-1, 0, 1):
            E |= {c + d, -c + d}
    return sorted(e for e in E if lo <= e <= hi)


def corners(ct):
    """Directed operands: pairs of corner values, pairs with products at the constants of the code and next to multiples of Q."""
    cs = set(constants(ct.src, ct.name)) if ct.src.endswith('.c') else set()
    twin = ct.name.replace('_asm2', '').replace('_asm', '')
    cs |= constants('ntt_red.c', twin) if twin != ct.name else set()
    X = corner_values(cs, *ct.xr)
    if ct.kind == 'u':
        return np.array(X), None
    if ct.alias in ('a=b', 'c=a=b'):
        x = [v for v in X if not ct.clip or ct.clip[0] <= v * v <= ct.clip[1]]
        return np.array(x), np.array(x)
    Y = corner_values(cs, *ct.yr)
    key = (tuple(X), tuple(Y), ct.clip)
    if key not in _corners:
        xs, ys = [np.repeat(X, len(Y))], [np.tile(Y, len(X))]
        Yn = np.array([v for v in Y if v])
        for c in cs | (set(ct.clip) if ct.clip else set()):
            if 4096 < abs(c) < 1 << 62:
                for d in (-1, 0, 1, 2):
                    xs.append(c // Yn + d)
                    ys.append(Yn)
        yy = np.arange(1, Q)
        inv = inverses()
        for r in (1, -1, 2, -2):
            x = r * inv % Q
            xs += [x, x - Q, x]
            ys += [yy, yy, yy - Q]
        x, y = np.concatenate(xs), np.concatenate(ys)
        lo, hi = ct.clip or (-(1 << 62), 1 << 62)
        k = (x >= ct.xr[0]) & (x <= ct.xr[1]) & (y >= ct.yr[0]) & (y <= ct.yr[1])
        x, y = x[k], y[k]
        k = (x * y >= lo) & (x * y <= hi)
        _corners[key] = (x[k], y[k])
    return _corners[key]


_corners = {}


def inverses():
    """Inverses of 1..Q-1 modulo Q."""
    if 'inv' not in _corners:
        _corners['inv'] = np.array([pow(y, -1, Q) for y in range(1, Q)])
    return _corners['inv']


def corner_runs(ct, scalars=150):
    """Calls (x, y) that cover the directed operands."""
    x, y = corners(ct)
    m = ct.mult
    pad = lambda v: np.resize(v, (len(v) + m - 1) // m * m)
    if ct.kind == 's':
        o = np.argsort(y, kind='stable')
        x, y = x[o], y[o]
        us, at = np.unique(y, return_index=True)
        at = list(at) + [len(y)]
        by = sorted(range(len(us)), key=lambda i: at[i] - at[i + 1])   # scalars with the most operands first
        k = scalars // 3
        for i in by[:scalars - k] + by[scalars - k::max(1, len(by) // k)]:
            yield pad(x[at[i]:at[i + 1]]), int(us[i])
    else:
        yield pad(x), None if y is None else pad(y)


def operands(ct, rng, n):
    x = edge(rng, *ct.xr, n)
    y = None
    if ct.kind == 's':
        y = int(edge(rng, *ct.yr, 1)[0])
        if ct.clip and y:
            lim = [int(ct.clip[0] / y), int(ct.clip[1] / y)]
            x = edge(rng, max(ct.xr[0], min(lim)), min(ct.xr[1], max(lim)), n)
            x = np.array([v if ct.clip[0] <= int(v) * y <= ct.clip[1] else 0 for v in x])
    elif ct.yr:
        y = edge(rng, *ct.yr, n)
        if ct.alias in ('a=b', 'c=a=b'):
            if ct.clip:
                x = edge(rng, -2900000, 2900000, n)
            y = x
        elif ct.clip:
            # bring products to and around the limits
            for i in range(n):
                if not ct.clip[0] <= int(x[i]) * int(y[i]) <= ct.clip[1]:
                    lim = int((ct.clip[1] if rng.integers(0, 2) else ct.clip[0]) / int(y[i]))
                    x[i] = max(ct.xr[0], min(ct.xr[1], lim))
                    if not ct.clip[0] <= int(x[i]) * int(y[i]) <= ct.clip[1]:
                        x[i] = 0
    return x, y


def native_call(ct, x, y, tail=True, name=None, ub=False):
    from . import native
    lib = lib_for(ct, ub)
    native.note(dict(function=name or ct.name, n=len(x), a=x, b=y))
    n = len(x)
    x32 = x.astype(np.int32)
    q = [('i', Q)] if ct.q else []
    nm = name or ct.name
    if ct.kind == 'u':
        out, ok = native.call(lib, nm, [x32], order=[('a', 0), ('i', n)] + q, tail=tail)
        return out[0], ok
    if ct.kind == 'p':
        p = y.astype(np.uint16 if ct.p_unsigned else np.int16)
        out, ok = native.call(lib, nm, [x32, p], (1,), order=[('a', 0), ('i', n), ('a', 1)] + q, tail=tail)
        return out[0], ok
    if ct.kind == 's':
        out, ok = native.call(lib, nm, [x32], order=[('a', 0), ('i', n), ('i', y)] + q, tail=tail)
        return out[0], ok
    y32 = y.astype(np.int32)
    al = ct.alias
    if al is None:
        arrs, ro, idx = [np.zeros(n, np.int32), x32, y32], (1, 2), (0, 1, 2)
    elif al == 'c=a':
        arrs, ro, idx = [x32, y32], (1,), (0, 0, 1)
    elif al == 'c=b':
        arrs, ro, idx = [y32, x32], (1,), (0, 1, 0)
    elif al == 'a=b':
        arrs, ro, idx = [np.zeros(n, np.int32), x32], (1,), (0, 1, 1)
    else:
        arrs, ro, idx = [x32], (), (0, 0, 0)
    out, ok = native.call(lib, nm, arrs, ro, order=[('a', idx[0]), ('i', n), ('a', idx[1]), ('a', idx[2])] + q, tail=tail)
    return out[0], ok


def bad_elements(ct, x, y, z):
    x = np.asarray(x).astype(np.int64) % Q
    z = np.asarray(z).astype(np.int64)
    e = x * (ct.coef % Q) % Q
    if ct.kind != 'u':
        e = e * (y % Q if ct.kind == 's' else np.asarray(y).astype(np.int64) % Q) % Q
    return np.nonzero((z % Q != e) | (z < ct.out[0]) | (z > ct.out[1]))[0]


def native_search(ct, seed, rounds=60, big=True, ub=False):
    """Bounded run of the real code against the contract; returns (runs, failing input or None)."""
    rng = np.random.default_rng(seed)
    m = ct.mult
    sizes = [m * k for k in ([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 64] if m == 1 else [1, 2, 3, 4, 5, 7, 8, 16, 64])]
    runs = 0
    for r in range(rounds):
        n = sizes[r % len(sizes)]
        x, y = operands(ct, rng, n)
        z, ok = native_call(ct, x, y, tail=bool(r & 1), ub=ub)
        runs += 1
        f = verdict(ct, x, y, z, ok)
        if f:
            return runs, f
    for x, y in corner_runs(ct):
        z, ok = native_call(ct, x, y, ub=ub)
        runs += 1
        f = verdict(ct, x, y, z, ok)
        if f:
            return runs, f
    if ct.kind == 'u' and ct.xr[1] - ct.xr[0] < 1 << 20:
        x = np.arange(ct.xr[0], ct.xr[1] + 1)
        x = np.resize(x, (len(x) + m - 1) // m * m)
        z, ok = native_call(ct, x, None, ub=ub)
        runs += 1
        f = verdict(ct, x, None, z, ok)
        if f:
            return runs, f
    if big:
        for n in (65536, 65536 + m, 70000 // m * m, 131072 + 3 * m):
            x, y = (edge(rng, *ct.xr, n), None) if ct.kind == 'u' else operands_big(ct, rng, n)
            z, ok = native_call(ct, x, y, ub=ub)
            runs += 1
            f = verdict(ct, x, y, z, ok)
            if f:
                return runs, f
    return runs, None


def operands_big(ct, rng, n):
    x, y = operands(ct, rng, 256)
    x = np.resize(x, n)
    return x, (y if ct.kind == 's' else (x if ct.alias in ('a=b', 'c=a=b') else np.resize(y, n)))


def verdict(ct, x, y, z, ok):
    bad = bad_elements(ct, x, y, z)
    if len(bad):
        i = int(bad[0])
        return dict(function=ct.name, n=len(x), index=i, a=int(x[i]), b=None if y is None else int(y if ct.kind == 's' else y[i]),
                    observed=int(z[i]), required='residue %d*operand(s) mod %d in [%d,%d]' % (ct.coef, Q, *ct.out))
    if not ok:
        return dict(function=ct.name, n=len(x), observed='memory next to an array was overwritten')
    return None


# ------------------------------------------------------------------ verdict
def decide(ct, seed, thorough=False):
    """Decides one contract; returns a dict merged into the report."""
    from . import native
    rec = dict(function=ct.name, contract=ct.label() + ', every length')
    try:
        r = all_n(ct)
    except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, NotImplementedError) as e:
        r = Result()
        r.undecided = 'engine: %s: %s' % (type(e).__name__, e)
    good = not r.obl.fails and not r.problems and not r.undecided
    rounds = 400 if thorough else 60
    runs, f, trouble = native.search(native_search, ct, seed, rounds)
    if f is None:
        r2, f2, t2 = native.search(lambda: native_search(ct, seed + 1, rounds if not good else 20, big=False, ub=True))
        runs += r2
        f, trouble = f2, trouble or t2
    rec['runs'] = runs
    if f is not None:
        rec.update(status='violated', obligation=(r.problems[0][1] if r.problems else r.obl.fails[0]['msg'] if r.obl.fails else 'postcondition (found by running the code)'), input=f)
        return rec
    if good:
        rec.update(status='proved', obligations=r.obl.total() + r.extra, kinds=dict(r.obl.count, postcondition=r.extra), native=runs)
        return rec
    # the proof for symbolic n failed: prove a set of concrete lengths
    ns = [ct.mult * k for k in ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100) if ct.mult == 1 else (1, 2, 3, 4, 5, 6, 7, 8, 16))]
    done = []
    tot = 0
    kinds = {}
    for n in ns:
        try:
            x = one_n(ct, n)
        except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, NotImplementedError) as e:
            break
        if x.undecided:
            break
        bad = [p for p in x.problems if p[0]]
        hard = [q for q in x.obl.fails if definite(q, x.ctx)]
        if bad or hard:
            rec.update(status='violated', obligation=(bad[0][1] if bad else hard[0]['msg']) + ' (n=%d)' % n, input=None,
                       output=dict(problems=[p[1] for p in x.problems[:10]], failed=[q['msg'] for q in x.obl.fails[:10]], all_lengths=dict(undecided=r.undecided, problems=[p[1] for p in r.problems[:5]], failed=[q['msg'] for q in r.obl.fails[:5]])))
            return rec
        if x.problems or x.obl.fails:
            rec.update(status='violated', obligation=(x.problems[0][1] if x.problems else x.obl.fails[0]['msg']) + ' (n=%d)' % n, input=None,
                       output=dict(problems=[p[1] for p in x.problems[:10]], failed=[q['msg'] for q in x.obl.fails[:10]]))
            return rec
        done.append(n)
        tot += x.obl.total() + x.extra
        for k, v in x.obl.count.items():
            kinds[k] = kinds.get(k, 0) + v
    why = r.undecided or (r.problems[0][1] if r.problems else r.obl.fails[0]['msg'])
    rec.update(status='bounded', bound='all contents for lengths %s by proof; lengths 0..131080 by %d native runs' % (done, runs), why=why, part=tot, trouble=trouble)
    return rec


def definite(q, ctx):
    """Is a failed generated condition certainly violated by some admissible input?"""
    if q['kind'] == 'memory' or q['kind'] == 'abi':
        return True
    if 'term' not in q:
        return True
    N = q['bits']
    h = 1 << (N - 1)
    v = q['term']
    r = logic.solve(ctx, [], lambda t: z3.Or(t.lin(v) >= h, t.lin(v) < -h), timeout=10000, expand_cuts=True)
    return isinstance(r, tuple)
