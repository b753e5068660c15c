"""C03: the AVX2 routines and the portable C routines leave the same 32-bit values in memory."""
import numpy as np, z3
from .terms import Ctx, ModSpace, Q, Undecided, Refuted, Lin
from .irexec import Exec, Obl, Region, Ptr
from . import build, ew, native, logic
from . import transforms as T


def sizes(base):
    """(n, input magnitude)"""
    out = [(n, 21499) for n in (16, 32, 64, 128, 256, 512, 1024)]
    out.append((2048, 21499 if '_ct_' in base else 6144))
    return out


def decide(base, n, R):
    L, A = T.TR(base, 'lazy'), T.TR(base, 'asm')
    rec = dict(function=A.name, contract='n=%d, |a[i]| <= %d, all roots: same 32-bit values as %s' % (n, R, L.name), n=n, R=R)
    ctx = Ctx(ModSpace(L.order(n), n))
    o1, o2 = Obl(), Obl()
    try:
        a = T.symbolic_input(ctx, n, (-R, R))
        c = T.symbolic_input(ctx, n, (-R, R))
        p = T.symbolic_table(ctx, L, n)
        T.execute(L, ctx, o1, a, p, n)
        T.execute(A, ctx, o2, c, p, n)
        diff = []
        for o in range(n):
            if ctx.key(a.cells[o]) != ctx.key(c.cells[o]):
                diff.append(o)
        if not diff and not o1.fails and not o2.fails:
            rec.update(status='proved', obligations=o2.total() + n, kinds=dict(o2.count, equality=n))
            return rec
        rec.update(status='open', why='output %d not shown equal' % diff[0] if diff else (o1.fails + o2.fails)[0]['msg'], ndiff=len(diff),
                   mem=[q['msg'] for q in o2.fails if q['kind'] != 'overflow'][:5])
        if diff:
            # residues differ for a generic root: certain
            d = []
            for o in diff[:64]:
                try:
                    x, y = ctx.mf(a.cells[o]), ctx.mf(c.cells[o])
                    if ctx.mf_clean(x) and ctx.mf_clean(y) and not ctx.mf_eq(x, y):
                        d.append(o)
                except Undecided:
                    pass
            rec['definite'] = d
    except Undecided as e:
        rec.update(status='open', why=str(e))
    except Refuted as e:
        rec.update(status='open', why=str(e), definite=[0])
    except T.ENGINE as e:
        rec.update(status='open', why='engine: %s: %s' % (type(e).__name__, e))
    return rec


def compare(base, seed, ns, rounds, deep=False):
    L, A = T.TR(base, 'lazy'), T.TR(base, 'asm')
    lib = build.shared_lib(None, ('-O3',))
    rg = np.random.default_rng(seed)
    runs = 0
    for n, R in ns:
        gs = T.generator(L.order(n))
        for g in [gs[int(rg.integers(len(gs)))] for _ in range(4 if deep else 2)]:
            tab = T.concrete_table(L, n, g)
            sets = [T.inputs(rg, n, -R, R, rounds)]
            if deep:
                sets.append('aligned')
                sets += [x for i, x in enumerate(T.deltas(n, -R, R, 1 if n <= 64 else 29))]
            for X in sets:
                if isinstance(X, str):
                    X = T.aligned(L, lib, n, tab, -R, R, range(0, n, max(1, n // 64)))
                native.note(dict(function=A.name, n=n, root=g, a=X[0], note='batch of runs'))
                Y, Z = T.run_batch(L, lib, n, tab, X), T.run_batch(A, lib, n, tab, X)
                runs += len(X)
                w = np.argwhere(Y != Z)
                if len(w):
                    i, o = (int(v) for v in w[0])
                    return runs, dict(function=A.name, n=n, root=g, a=X[i].tolist(), index=o, observed=int(Z[i][o]), expected=int(Y[i][o]),
                                      required='the value %s stores' % L.name)
    return runs, None


def resolve(base, recs, seed, thorough):
    A = T.TR(base, 'asm')
    out = [r for r in recs if r['status'] == 'proved']
    op = [r for r in recs if r['status'] != 'proved']
    ns = sizes(base)
    stages = [lambda: compare(base, seed, ns, 24)]
    if op:
        stages += [lambda: T.guarded_search(A, seed, [n for n, _ in ns if n <= 1024]),
                   lambda: compare(base, seed + 1, [x for x in ns if x[0] in (16, 64, 1024)], 200, True)]
    runs = 0
    for s in stages:
        r, f, t = native.search(s, timeout=200)
        runs += r
        if f is not None:
            out.append(dict(function=A.name, contract='n=%s' % f.get('n'), status='violated', obligation=op[0]['why'] if op else 'equality (found by running the code)', input=f, output=op[:1]))
            return out
    for r in op:
        if r.get('definite') or r.get('ndiff') or r.get('mem'):
            out.append(dict(function=A.name, contract=r['contract'], status='violated', obligation=r['why'], input=None, output=r))
        else:
            out.append(dict(function=A.name, contract=r['contract'], status='bounded', bound='%d native comparisons' % runs, why=r['why'], runs=runs))
    return out


# ------------------------------------------------------------------ array operations
def pairs():
    """(AVX2 contract, C contract) with the same preconditions."""
    cts = ew.red_contracts()
    c = {(x.name, x.label()): x for x in cts if not x.asm}
    out = []
    for x in cts:
        if x.asm:
            nm = x.name.replace('_asm2', '').replace('_asm', '')
            out.append((x, c[(nm, x.label())]))
    return out


def ew_decide(ca, cc, seed, thorough):
    rec = dict(function=ca.name, contract=ca.label() + ', every length: same values as ' + cc.name)
    why = None
    ob = 0
    try:
        ra, rc = ew.all_n(ca), ew.all_n(cc)
        bad = [r for r in (ra, rc) if r.obl.fails or r.problems or r.undecided]
        if bad:
            why = bad[0].undecided or (bad[0].problems[0][1] if bad[0].problems else bad[0].obl.fails[0]['msg'])
        else:
            sa = {ew.struct(ra.ctx, v) for v in ra.expr}
            sc = {ew.struct(rc.ctx, v) for v in rc.expr}
            ob = ra.obl.total() + ra.extra + 1
            if sa == sc and len(sa) == 1:
                pass
            elif ca.out[1] - ca.out[0] < Q:
                pass           # congruent values in a window shorter than Q are equal
            else:
                for va in ra.expr:
                    for vc in rc.expr:
                        x = ew.rename(ra.ctx, rebuild(ra.ctx, rc.ctx, vc), {})
                        if not logic.prove_zero(ra.ctx, [], ra.ctx.sub(va, x), timeout=30000, expand_cuts=True):
                            why = 'element values not shown equal'
    except Undecided as e:
        why = str(e)
    except T.ENGINE as e:
        why = 'engine: %s: %s' % (type(e).__name__, e)
    runs, f, t = native.search(lambda: ew_compare(ca, cc, seed, 300 if thorough or why else 40))
    if f is not None:
        rec.update(status='violated', obligation=why or 'equality (found by running the code)', input=f)
    elif why is None:
        rec.update(status='proved', obligations=ob, kinds=dict(ra.obl.count, equality=1))
    elif why == 'element values not shown equal':
        rec.update(status='violated', obligation=why, input=None)
    else:
        rec.update(status='bounded', bound='%d native comparisons' % runs, why=why, runs=runs)
    return rec


def rebuild(dst, src, L, memo=None):
    """Copy a term from one context to another (variables by name)."""
    if not isinstance(L, Lin):
        return L
    memo = {} if memo is None else memo
    r = L.c
    for b, k in L.t.items():
        v = memo.get(b)
        if v is None:
            if b.kind == 'var':
                v = dst.var(b.name, b.lo, b.hi)
            else:
                a = [rebuild(dst, src, x, memo) if isinstance(x, Lin) else x for x in b.args]
                if b.kind == 'cut':
                    v = a[0]
                elif b.kind == 'and':
                    v = dst.bit2('and', a[0], a[1], a[2])
                else:
                    v = {'fdiv': dst.floordiv, 'tdiv': dst.tdiv, 'neg': dst.isneg, 'eqz': dst.iszero, 'mul': dst.mul, 'ite': dst.ite}[b.kind](*a)
            memo[b] = v
        r = dst.add(r, dst.mulc(v, k))
    return r


def ew_compare(ca, cc, seed, rounds):
    rng = np.random.default_rng(seed)
    runs = 0
    def calls():
        for r in range(rounds):
            yield ew.operands(ca, rng, 16 * (1, 2, 3, 5, 8, 64)[r % 6])
        for c in ew.corner_runs(ca):
            yield c
    for r, (x, y) in enumerate(calls()):
        n = len(x)
        za, ok = ew.native_call(ca, x, y, tail=bool(r & 1))
        zc, _ = ew.native_call(cc, x, y)
        runs += 1
        w = np.nonzero(za != zc)[0]
        if len(w):
            i = int(w[0])
            return runs, dict(function=ca.name, n=n, index=i, a=int(x[i]), b=None if y is None else int(y if ca.kind == 's' else y[i]), observed=int(za[i]), expected=int(zc[i]),
                              required='the value %s stores' % cc.name)
    return runs, None
