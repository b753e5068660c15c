"""Contracts of the transforms: for every array contents, every root and every size.

A transform of size n with table p leaves in a[] (o and r natural indices of output and input)
    A[o] = sum_r a[r] * w^(o*r) * (psi^r if 'mulntt', psi^o if 'nttmul')   modulo Q.
Sizes are powers of two; roots of order n (plain) or 2n (combined with powers of psi) exist
modulo 12289 for n <= 4096 and n <= 2048, so the sizes are finitely many and all are proved.
The root is symbolic: table entries are arbitrary integers of the documented range that are
congruent to the documented power of a root g with g^(N/2) = -1."""
import ctypes, time
import numpy as np
from .terms import Ctx, ModSpace, Q, Undecided, Refuted, ONE, Lin
from .irexec import Exec, Obl, Region, Ptr
from . import build, ew, native

FAMS = {
    'default': dict(src='ntt.c', inr=(0, Q - 1), out=(0, Q - 1), tab=(0, Q - 1), scale=1, maxn=2048, unsigned=True),
    'naive': dict(src='naive_ntt.c', inr=(-(Q - 1), Q - 1), out=(-(Q - 1), Q - 1), tab=(0, Q - 1), scale=1, maxn=2048, unsigned=True),
    'lazy': dict(src='ntt_red.c', inr=(-21499, 21499), out=None, tab=(-6144, 6144), scale=8193, maxn=1024, unsigned=False),
    'asm': dict(src='asm', inr=(-21499, 21499), out=None, tab=(-6144, 6144), scale=8193, maxn=1024, unsigned=False),
}
BASE = ['ntt_ct_rev2std', 'mulntt_ct_rev2std', 'ntt_ct_std2rev', 'mulntt_ct_std2rev',
        'ntt_gs_rev2std', 'nttmul_gs_rev2std', 'ntt_gs_std2rev', 'nttmul_gs_std2rev']


def bitrev(j, t):
    r = 0
    while t > 1:
        r = 2 * r + (j & 1)
        j >>= 1
        t >>= 1
    return r


class TR:
    def __init__(self, base, fam):
        self.fam = fam
        self.f = FAMS[fam]
        self.base = base
        self.v1 = base.endswith('_v1')
        self.mul = 'pre' if base.startswith('mulntt') else 'post' if base.startswith('nttmul') else None
        self.inrev = 'rev2std' in base
        self.tabrev = 'ct_std2rev' in base or 'gs_rev2std' in base
        nm = base
        if fam in ('lazy', 'asm'):
            nm = base.replace('ntt_', 'ntt_red_').replace('nttmul_', 'nttmul_red_')
        self.name = nm + {'default': '', 'naive': '_naive', 'lazy': '', 'asm': '_asm'}[fam]
        self.psi = self.mul is not None or self.v1

    def order(self, n):
        return 2 * n if self.psi else n

    def table_exp(self, n):
        """Exponent of the root in each table entry (None: unspecified)."""
        if self.v1:
            return list(range(n))
        e = [None] * n
        t = 1
        while t < n:
            for j in range(t):
                x = (n // (2 * t)) * (bitrev(j, t) if self.tabrev else j)
                e[t + j] = 2 * x + n // (2 * t) if self.psi else x
            t *= 2
        return e

    def table_len(self, n):
        return n

    def exps(self, n):
        """Expected exponent matrix, by position of output and input."""
        rv = np.array([bitrev(i, n) for i in range(n)])
        nat = np.arange(n)
        r = rv if self.inrev else nat
        o = nat if self.inrev else rv
        e = np.outer(o, r)
        if self.psi:
            e = 2 * e
        if self.mul == 'pre':
            e = e + r[None, :]
        elif self.mul == 'post':
            e = e + o[:, None]
        return e % self.order(n)

    def sizes(self, thorough):
        m = self.f['maxn']
        out = []
        n = 16 if self.fam == 'asm' else 2
        while n <= m:
            out.append(n)
            n *= 2
        if self.fam in ('default', 'naive') and not self.psi:
            out.append(4096)
        return out


def family(fam):
    b = [TR(x, fam) for x in BASE]
    if fam == 'default':
        b.append(TR('ntt_ct_rev2std_v1', fam))
    return b


def symbolic_table(ctx, tr, n):
    N = tr.order(n)
    lo, hi = tr.f['tab']
    cells = []
    for i, e in enumerate(tr.table_exp(n)):
        if e is None:
            cells.append(ctx.var('p%d' % i, *((0, 65535) if tr.f['unsigned'] else (-32768, 32767))))
        elif e % N == 0 or 2 * e % N == 0:
            v = tr.f['scale'] * (1 if e % N == 0 else -1) % Q
            cells.append(v if tr.f['unsigned'] else (v if v <= Q // 2 else v - Q))
        else:
            cells.append(ctx.var('p%d' % i, lo, hi, mono=(tr.f['scale'], e)))
    return Region('p', 2, cells, False)


def symbolic_input(ctx, n, rng, name='a'):
    r = Region(name, 4, [ctx.var('a%d' % i, rng[0], rng[1], basis=i) for i in range(n)])
    r.cutting = True
    return r


def execute(tr, ctx, obl, a, p, n):
    if tr.fam == 'asm':
        from .x86 import X86
        x = X86(ctx, obl)
        x.cutlookup = True
        x.call(tr.name, [Ptr(a, 0), n, Ptr(p, 0)])
    else:
        ex = Exec(ew.modules(tr.f['src']), ctx, obl)
        ex.call(tr.name, [Ptr(a, 0), n, Ptr(p, 0)] + ([Q] if tr.fam == 'naive' else []))


def check_rows(tr, n, ctx, cells):
    """Postcondition of every output position.  List of (definite?, text)."""
    N = tr.order(n)
    E = tr.exps(n)
    h = N // 2
    ec = np.where(E >= h, Q - 1, 1) if h else np.ones_like(E)
    ee = E % h if h else np.zeros_like(E)
    prob = []
    out = tr.f['out']
    for o in range(n):
        v = cells[o]
        if not isinstance(v, (int, Lin)):
            raise Undecided('cell %d' % o)
        m = ctx.mf(v)
        if m.s or m.c is None or not ((m.c == ec[o]).all() and (m.e == ee[o]).all()):
            clean = ctx.mf_clean(m) and m.c is not None
            j = int(np.nonzero((m.c != ec[o]) | (m.e != ee[o]))[0][0]) if m.c is not None and ((m.c != ec[o]) | (m.e != ee[o])).any() else None
            prob.append((clean, 'postcondition: output %d of %s, n=%d: wrong coefficient of input %s' % (o, tr.name, n, j)))
        if out:
            lo, hi = ctx.range(v)
            if lo < out[0] or hi > out[1]:
                prob.append((False, 'postcondition: output %d of %s, n=%d: range [%d,%d] not proved within [%d,%d]' % (o, tr.name, n, lo, hi, *out)))
    return prob


ENGINE = (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, NotImplementedError)


def prove(tr, n, rng=None):
    """Symbolic execution of the whole transform at size n; (obl, problems, undecided, outrange)."""
    ctx = Ctx(ModSpace(tr.order(n), n))
    obl = Obl()
    try:
        a = symbolic_input(ctx, n, rng or tr.f['inr'])
        p = symbolic_table(ctx, tr, n)
        execute(tr, ctx, obl, a, p, n)
        prob = check_rows(tr, n, ctx, a.cells)
        rs = [ctx.range(v) for v in a.cells]
        return obl, prob, None, (min(r[0] for r in rs), max(r[1] for r in rs)), ctx
    except Undecided as e:
        return obl, [], str(e), None, ctx
    except Refuted as e:
        return obl, [(True, str(e))], None, None, ctx
    except ENGINE as e:
        return obl, [], 'engine: %s: %s' % (type(e).__name__, e), None, ctx


# ------------------------------------------------------------------ native runs
def generator(N):
    """All elements of order exactly N modulo Q."""
    g = 11            # primitive root of 12289
    b = pow(g, (Q - 1) // N, Q)
    return [pow(b, k, Q) for k in range(1, N + 1) if np.gcd(k, N) == 1] if N > 1 else [1]


def concrete_table(tr, n, g):
    out = np.zeros(n, dtype=np.int64)
    for i, e in enumerate(tr.table_exp(n)):
        if e is not None:
            v = tr.f['scale'] * pow(g, e, Q) % Q
            out[i] = v if tr.f['unsigned'] or v <= Q // 2 else v - Q
    return out.astype(np.uint16 if tr.f['unsigned'] else np.int16)


def matrix(tr, n, g):
    pw = np.array([pow(g, k, Q) for k in range(max(1, tr.order(n)))], dtype=np.int64)
    return pw[tr.exps(n)]


def mulmod(M, X):
    """(M @ X) mod Q exactly (entries below Q in absolute value, n <= 4096)."""
    return np.mod(np.rint(M.astype(np.float64) @ np.mod(X, Q).astype(np.float64)), Q).astype(np.int64)


def lib_for(tr, ub):
    fl = ew.UBSAN if ub else ('-O3',)
    if tr.fam == 'naive':
        return build.shared_lib(build.naive_sources(), fl, 'naive')
    return build.shared_lib(None, fl)


def run_batch(tr, lib, n, tab, X):
    """Runs the transform on each row of X (a copy)."""
    A = np.ascontiguousarray(X.astype(np.int32))
    f = getattr(lib, tr.name)
    f.restype = None
    p = tab.ctypes.data_as(ctypes.c_void_p)
    extra = (Q,) if tr.fam == 'naive' else ()
    base = A.ctypes.data
    for i in range(len(A)):
        f(ctypes.c_void_p(base + 4 * n * i), n, p, *extra)
    return A


def inputs(rng, n, lo, hi, k):
    X = rng.integers(lo, hi + 1, (k, n))
    for i in range(0, k, 3):
        X[i] = ew.edge(rng, lo, hi, n)
    if k > 8:
        X[1] = hi
        X[2] = lo
        X[4] = np.where(rng.integers(0, 2, n), lo, hi)
        X[5] = np.where(np.arange(n) & 1, lo, hi)
        X[7] = np.where(np.arange(n) >= n // 2, lo, hi)
    return X


def deltas(n, lo, hi, step=1):
    """Single non-zero coefficients sweeping all values, at positions that reach every table entry."""
    vs = np.arange(lo, hi + 1, step)
    for pos in {0, 1, n // 2, n - 1}:
        for s in range(0, len(vs), 1024):
            X = np.zeros((min(1024, len(vs) - s), n), dtype=np.int64)
            X[:, pos] = vs[s:s + 1024]
            yield X


def aligned(tr, lib, n, tab, lo, hi, outs):
    """Inputs of extreme values whose signs add up at a chosen output."""
    I = np.zeros((2 * n + 1, n), dtype=np.int64)
    for i in range(n):
        I[i, i] = hi
        I[n + i, i] = lo
    R = run_batch(tr, lib, n, tab, I).astype(np.int64)
    d = R[:n] - R[n:2 * n]
    X = []
    for o in outs:
        up = d[:, o] > 0
        X.append(np.where(up, hi, lo))
        X.append(np.where(up, lo, hi))
    return np.array(X)


def rounds(tr, n):
    """The linear steps of the documented algorithm: list of (d, [(s, s+d, table index)], kind)."""
    out = []
    ct = '_ct_' in tr.base
    ds = [1 << k for k in range(n.bit_length() - 1)]
    up = tr.inrev                                   # rev2std: distances 1, 2, 4, ...; std2rev: n/2, ..., 1
    for d in (ds if up else ds[::-1]):
        t = n // (2 * d)                            # number of blocks
        b = []
        for k in range(t):
            for j in range(d):
                b.append((2 * d * k + j, 2 * d * k + j + d, (t + k) if tr.tabrev else (d + j)))
        out.append((d, np.array(b)))
    return out, ct


def pull_back(tr, n, g, r, S):
    """Inputs (rows) whose state before round r of the documented algorithm is S modulo Q."""
    rs, ct = rounds(tr, n)
    e = tr.table_exp(n)
    S = S.copy() % Q
    for d, b in reversed(rs[:r]):
        w = np.array([pow(g, -e[k] % max(1, tr.order(n)), Q) for k in b[:, 2]], dtype=np.int64)
        x, y = S[:, b[:, 0]], S[:, b[:, 1]]
        h = (Q + 1) // 2
        if ct:                                      # (u, v) -> (u + w v, u - w v)
            S[:, b[:, 0]] = (x + y) * h % Q
            S[:, b[:, 1]] = (x - y) * h % Q * w % Q
        else:                                       # (u, v) -> (u + v, (u - v) w)
            z = y * w % Q
            S[:, b[:, 0]] = (x + z) * h % Q
            S[:, b[:, 1]] = (x - z) * h % Q
    return S


def guided(tr, n, g, rg, per=160, cols=12):
    """Inputs for which the documented algorithm meets sparse and extreme states before each round."""
    if tr.v1:
        return
    lo, hi = tr.f['inr']
    rs, ct = rounds(tr, n)
    e = tr.table_exp(n)
    for r in range(len(rs) + 1):
        for _ in range(cols):
            S = np.zeros((per, n), dtype=np.int64)
            pos = rg.integers(0, n, per)
            if r < len(rs):
                d, b = rs[r]
                pick = b[rg.integers(0, len(b), per)]
                wi = np.array([pow(g, -e[k] % max(1, tr.order(n)), Q) for k in pick[:, 2]], dtype=np.int64)
                side = rg.integers(0, 2, per)
                pos = np.where(side == 0, pick[:, 0], pick[:, 1])
                sp = np.array([1, 2, Q - 1, Q - 2, (Q - 1) // 2, (Q + 1) // 2, 3, Q - 3])[rg.integers(0, 8, per)]
                v = np.where(rg.integers(0, 2, per) == 0, sp * wi % Q, sp)
                S[np.arange(per), pos] = v
                oth = np.where(side == 0, pick[:, 1], pick[:, 0])
                S[np.arange(per), oth] = np.where(rg.integers(0, 3, per) == 0, [0, 1, Q - 1, Q // 2][int(rg.integers(4))], 0)
            else:
                S[np.arange(per), pos] = rg.integers(0, Q, per)
            k = per // 8
            S[:k] = rg.integers(0, 2, (k, n)) * (Q - 1)
            S[k:2 * k] = np.array([0, 1, Q - 1])[rg.integers(0, 3, (k, n))]
            X = pull_back(tr, n, g, r, S)
            if lo < 0:
                X = np.where(rg.integers(0, 2, X.shape) == 1, X, X - Q)
            yield X


def bad_row(tr, n, M, X, Y):
    E = mulmod(M, X.T).T
    out = tr.f['out']
    wrong = (Y.astype(np.int64) - E) % Q != 0
    if out:
        wrong |= (Y < out[0]) | (Y > out[1])
    w = np.argwhere(wrong)
    if len(w):
        i, o = int(w[0][0]), int(w[0][1])
        return dict(function=tr.name, n=n, a=X[i].tolist(), index=o, observed=int(Y[i][o]), expected=int(E[i][o]),
                    required='congruent modulo %d%s' % (Q, ', within [%d,%d]' % out if out else ''))
    return None


def search(tr, seed, sizes, rounds=48, deep=False, ub=False, rng_in=None, guide=False):
    """Runs the real code; (runs, failing input or None)."""
    rg = np.random.default_rng(seed)
    lib = lib_for(tr, ub)
    lo, hi = rng_in or tr.f['inr']
    runs = 0
    for n in sizes:
        gs = generator(tr.order(n))
        pick = [gs[int(rg.integers(len(gs)))] for _ in range(2 if not deep else 4)]
        for g in pick:
            tab = concrete_table(tr, n, g)
            M = matrix(tr, n, g)
            sets = [inputs(rg, n, lo, hi, rounds * (4 if deep else 1))]
            if tr.fam in ('lazy', 'asm') and (n <= 256 or deep):
                sets.append('aligned')
            if deep:
                sets += list(deltas(n, lo, hi, 1 if n <= 64 or n == sizes[-1] else 37))
            if guide:
                sets = guided(tr, n, g, rg)
            for X in sets:
                if isinstance(X, str):
                    X = aligned(tr, lib, n, tab, lo, hi, range(0, n, max(1, n // 64)))
                native.note(dict(function=tr.name, n=n, root=g, note='batch of runs', a=X[0]))
                if ub:
                    Y = np.empty(X.shape, dtype=np.int32)
                    for i in range(len(X)):
                        native.note(dict(function=tr.name, n=n, root=g, a=X[i]))
                        Y[i] = run_batch(tr, lib, n, tab, X[i:i + 1])[0]
                else:
                    Y = run_batch(tr, lib, n, tab, X)
                runs += len(X)
                f = bad_row(tr, n, M, X, Y)
                if f:
                    f['root'] = g
                    return runs, f
    return runs, None


def guarded_search(tr, seed, sizes):
    """Arrays and tables against inaccessible pages; also used to see overwritten neighbours."""
    rg = np.random.default_rng(seed)
    lib = lib_for(tr, False)
    lo, hi = tr.f['inr']
    runs = 0
    for n in sizes:
        gs = generator(tr.order(n))
        g = gs[int(rg.integers(len(gs)))]
        tab = concrete_table(tr, n, g)
        M = matrix(tr, n, g)
        for tail in (True, False):
            X = inputs(rg, n, lo, hi, 1)
            native.note(dict(function=tr.name, n=n, root=g, a=X[0], placement='end of page' if tail else 'start of page'))
            out, ok = native.call(lib, tr.name, [X[0].astype(np.int32), tab], (1,), order=[('a', 0), ('i', n), ('a', 1)] + ([('i', Q)] if tr.fam == 'naive' else []), tail=tail)
            runs += 1
            f = bad_row(tr, n, M, X, out[0][None, :])
            if f:
                f['root'] = g
                return runs, f
            if not ok:
                return runs, dict(function=tr.name, n=n, a=X[0].tolist(), observed='memory next to an array was overwritten')
    return runs, None


# ------------------------------------------------------------------ verdict
def decide(tr, n, seed, thorough):
    """Proof of one transform at one size."""
    rec = dict(function=tr.name, contract='n=%d, all contents, all roots' % n)
    obl, prob, und, outr, ctx = prove(tr, n)
    if not obl.fails and not prob and not und:
        rec.update(status='proved', obligations=obl.total() + (2 if tr.f['out'] else 1) * n, kinds=dict(obl.count, postcondition=(2 if tr.f['out'] else 1) * n))
        return rec
    rec.update(status='open', problems=[(d, t) for d, t in prob[:20]], failed=[dict(kind=q['kind'], msg=q['msg'], definite=ew.definite(q, ctx) if n <= 16 and k < 3 else q['kind'] != 'overflow') for k, q in enumerate(obl.fails[:20])], undecided=und)
    return rec


def resolve(tr, recs, seed, thorough):
    """All sizes of one transform: keep proved ones, look for a failing input otherwise."""
    openr = [r for r in recs if r['status'] == 'open']
    out = [r for r in recs if r['status'] != 'open']
    sizes = tr.sizes(False)
    if not openr:
        runs, f, tr1 = native.search(lambda: search(tr, seed, [n for n in sizes if n <= 256], 12))
        if f is None:
            r2, f, t2 = native.search(lambda: guarded_search(tr, seed, sizes))
        if f is not None:
            out.append(dict(function=tr.name, contract='n=%d' % f.get('n', 0), status='violated', obligation='postcondition (found by running the code)', input=f))
        return out
    runs = 0
    trouble = None
    for fn in (lambda: guarded_search(tr, seed, sizes),
               lambda: search(tr, seed, sizes, 48),
               lambda: search(tr, seed + 1, [n for n in sizes if n <= 256], 24, ub=True),
               lambda: search(tr, seed + 4, [n for n in sizes if 4 <= n <= 64] + [n for n in sizes if 64 < n <= 1024], guide=True),
               lambda: search(tr, seed + 2, [n for n in sizes if n in (4, 16, 64, sizes[-1])], 100, deep=True),
               lambda: search(tr, seed + 3, [n for n in sizes if n in (16, 64, 512)], 60, deep=True, ub=True)):
        r, f, t = native.search(fn, timeout=150)
        runs += r
        trouble = trouble or t
        if f is not None:
            q = openr[0]
            ob = q['problems'][0][1] if q['problems'] else q['failed'][0]['msg'] if q['failed'] else 'postcondition'
            out.append(dict(function=tr.name, contract='n=%d' % f.get('n', 0), status='violated', obligation=ob, input=f, output=openr[0]))
            return out
    for q in openr:
        hard = [t for d, t in q['problems'] if d] + [x['msg'] for x in q['failed'] if x['definite']]
        hard += [t for d, t in q['problems']] + [x['msg'] for x in q['failed']]
        if hard and not q['undecided']:
            out.append(dict(function=tr.name, contract=q['contract'], status='violated', obligation=hard[0], input=None, output=q))
        else:
            out.append(dict(function=tr.name, contract=q['contract'], status='bounded', bound='%d native runs, n up to %d, sampled roots' % (runs, sizes[-1]),
                            why=q['undecided'] or (q['problems'][0][1] if q['problems'] else q['failed'][0]['msg']), runs=runs))
    return out
