"""C05 and C06: the size-specific wrappers and products, with the tables that are really built."""
import ctypes
import numpy as np
from .terms import Ctx, ModSpace, Q, Undecided, Refuted, Lin
from .irexec import Exec, Obl, Region, Ptr, UNINIT
from . import build, ew, native
from . import transforms as T

SIZES = (16, 256, 512, 1024)
FAM = {'default': ('ntt%d', ['ntt.c', 'ntt%d.c', 'ntt%d_tables.c']),
       'naive': ('naive_ntt%d', ['naive_ntt.c', 'naive_ntt%d.c', 'ntt%d_tables.c']),
       'lazy': ('ntt_red%d', ['ntt_red.c', 'ntt_red%d.c', 'ntt_red%d_tables.c']),
       'asm': ('ntt_red%d', ['ntt_red_asm%d.c', 'ntt_red%d_tables.c'])}


def module(fam, n):
    return build.module(*[f % n if '%' in f else f for f in FAM[fam][1]])


def product_name(fam, n, k):
    return '%s_product%d%s' % (FAM[fam][0] % n, k, '_asm' if fam == 'asm' else '')


class Asm(dict):
    """Calls of the AVX2 routines run the disassembled code on the same memory."""

    def __init__(self, ctx, obl):
        self.ctx, self.obl = ctx, obl

    def get(self, name, d=None):
        from .x86 import X86, image
        if not (name.endswith('_asm') or name.endswith('_asm2')):
            return d
        if name not in image().syms:
            return d

        def run(ex, args):
            x = X86(self.ctx, self.obl)
            x.autocut = 'ntt' in name
            x.call(name, args)
        return run


def negacyclic(n, P, cells, ctx):
    """The result is the negacyclic product, from the residue rows."""
    G = np.zeros((n, n), dtype=np.int64)
    for i, v in enumerate(cells):
        m = ctx.mf(v)
        if m.s or m.c is None or m.sp != 'prod':
            if m.c is None and not m.s:
                return 'c[%d] is always 0 modulo Q' % i, True
            return 'c[%d] is not a combination of products of transformed coefficients' % i, m.sp == 'prod' and ctx.mf_clean(m)
        G[i] = m.c
    K = len(P)
    A = np.zeros((K, n), dtype=np.int64)
    B = np.zeros((K, n), dtype=np.int64)
    for k, (a, mx, my) in enumerate(P):
        if mx.sp == 'b' and my.sp == 'a':
            mx, my = my, mx
        if mx.sp != 'a' or my.sp != 'b':
            return 'product %d is not of a coefficient of a and one of b' % k, True
        A[k], B[k] = mx.c, my.c
    G = G[:, :K]

    def inv(x):
        return np.array([pow(int(v), Q - 2, Q) for v in x], dtype=np.int64)
    if (A[:, 0] == 0).any() or (B[:, 0] == 0).any():
        return full(n, G, A, B)
    x = A[:, 1] * inv(A[:, 0]) % Q
    y = B[:, 1] * inv(B[:, 0]) % Q
    pw = np.ones((K, 2 * n), dtype=np.int64)
    for d in range(1, 2 * n):
        pw[:, d] = pw[:, d - 1] * x % Q
    if (x != y).any() or (pw[:, n] != Q - 1).any() or (A != A[:, :1] * pw[:, :n] % Q).any() or (B != B[:, :1] * pw[:, :n] % Q).any():
        return full(n, G, A, B)
    H = G * (A[:, 0] * B[:, 0] % Q)[None, :] % Q
    R = T.mulmod(H, pw[:, :n])
    if (R == np.eye(n, dtype=np.int64)).all():
        return None, True
    i, d = (int(v) for v in np.argwhere(R != np.eye(n, dtype=np.int64))[0])
    return 'coefficient of a[j]*b[l], j+l=%d, in c[%d] is %d modulo Q, not %d' % (d, i, R[i, d], int(i == d)), True


def full(n, G, A, B):
    """No evaluation-point structure: compare all coefficients of the bilinear form."""
    for i in range(n):
        R = T.mulmod((A * G[i][:, None] % Q).T, B)
        j = np.arange(n)
        S = (j[:, None] + j[None, :])
        E = np.where(S == i, 1, np.where(S == i + n, Q - 1, 0))
        if (R != E).any():
            a, b = (int(v) for v in np.argwhere(R != E)[0])
            return 'coefficient of a[%d]*b[%d] in c[%d] is %d modulo Q, not %d' % (a, b, i, R[a, b], E[a, b]), True
    return None, True


OUT = {'default': (0, Q - 1), 'naive': (-(Q - 1), Q - 1), 'lazy': (0, Q - 1), 'asm': (0, Q - 1)}


def prove(fam, n, k):
    ctx = Ctx(ModSpace(0, n))
    ctx.prod = []
    obl = Obl()
    name = product_name(fam, n, k)
    regs = {}
    ranges = {}
    try:
        for r in 'ab':
            regs[r] = Region(r, 4, [ctx.var('%s%d' % (r, i), 0, Q - 1, basis=(r, i)) for i in range(n)])
        regs['c'] = Region('c', 4, [UNINIT] * n)
        for r in regs.values():
            r.cutting = True
        ex = Exec(module(fam, n), ctx, obl, externs=Asm(ctx, obl) if fam == 'asm' else None)
        ex.call(name, [Ptr(regs[r], 0) for r in 'cab'])
        prob = []
        for i, v in enumerate(regs['c'].cells):
            if not isinstance(v, (int, Lin)):
                return obl, [(True, 'c[%d] is not written' % i)], None, ctx, ex
            lo, hi = ctx.range(v)
            if lo < OUT[fam][0] or hi > OUT[fam][1]:
                prob.append((False, 'postcondition: c[%d] in [%d,%d], not proved within [%d,%d]' % (i, lo, hi, *OUT[fam])))
        why, definite = negacyclic(n, ctx.prod, regs['c'].cells, ctx)
        if why:
            prob.append((definite, 'postcondition: ' + why))
        return obl, prob, None, ctx, ex
    except Undecided as e:
        return obl, [], str(e), ctx, None
    except Refuted as e:
        return obl, [(True, str(e))], None, ctx, None
    except T.ENGINE as e:
        return obl, [], 'engine: %s: %s' % (type(e).__name__, e), ctx, None


# ------------------------------------------------------------------ native runs of the products
def lib(fam, ub=False):
    fl = ew.UBSAN if ub else ('-O3',)
    if fam == 'naive':
        return build.shared_lib(build.naive_sources(), fl, 'naive')
    return build.shared_lib(None, fl)


def conv(a, b, n):
    c = np.convolve(a.astype(np.int64), b.astype(np.int64))
    c = np.concatenate([c, np.zeros(2 * n - len(c), dtype=np.int64)])
    return (c[:n] - c[n:]) % Q


def product_inputs(rng, n, k):
    out = []
    for i in range(k):
        a, b = rng.integers(0, Q, n), rng.integers(0, Q, n)
        m = i % 8
        if m == 1:
            a, b = ew.edge(rng, 0, Q - 1, n), ew.edge(rng, 0, Q - 1, n)
        elif m == 2:
            a = np.full(n, Q - 1)
        elif m == 3:
            a = np.full(n, Q - 1)
            b = np.full(n, Q - 1)
        elif m == 4:
            a = np.zeros(n, dtype=np.int64)
            a[int(rng.integers(n))] = int(rng.integers(1, Q))
        elif m == 5:
            a = np.where(rng.integers(0, 2, n) == 1, Q // 2, Q // 2 + 1)
            b = np.where(rng.integers(0, 2, n) == 1, Q // 2, Q // 2 + 1)
        elif m == 6:
            b = np.zeros(n, dtype=np.int64)
            b[n - 1] = Q - 1
        out.append((a, b))
    return out


def native_product(L, name, a, b):
    n = len(a)
    out, ok = native.call(L, name, [np.full(n, 0x5a5a5a5a, dtype=np.int32), a.astype(np.int32), b.astype(np.int32)], order=[('a', 0), ('a', 1), ('a', 2)])
    return out[0], ok


def product_search(fam, n, k, seed, rounds, ub=False, pairs=None):
    rng = np.random.default_rng(seed)
    L = lib(fam, ub)
    name = product_name(fam, n, k)
    runs = 0
    for a, b in (pairs or product_inputs(rng, n, rounds)):
        native.note(dict(function=name, a=a, b=b))
        c, ok = native_product(L, name, a, b)
        runs += 1
        e = conv(a, b, n)
        bad = np.nonzero(((c - e) % Q != 0) | (c < OUT[fam][0]) | (c > OUT[fam][1]))[0]
        if len(bad):
            i = int(bad[0])
            return runs, dict(function=name, a=a.tolist(), b=b.tolist(), index=i, observed=int(c[i]), expected=int(e[i]), required='coefficient of a*b mod X^%d+1 in [%d,%d]' % (n, *OUT[fam]))
        if not ok:
            return runs, dict(function=name, a=a.tolist(), b=b.tolist(), observed='memory next to an array was overwritten')
    return runs, None


def adversarial(fam, n, k, seed):
    """Inputs whose transforms are as large as possible at one place, for each of several places."""
    rng = np.random.default_rng(seed)
    L = lib(fam)
    f = getattr(L, product_name(fam, n, k))
    f.restype = None

    def after(a):
        x, y, c = a.astype(np.int32), np.zeros(n, np.int32), np.zeros(n, np.int32)
        f(*[v.ctypes.data_as(ctypes.c_void_p) for v in (c, x, y)])
        return x.astype(np.int64)
    D = np.zeros((n, n), dtype=np.int64)
    for i in range(n):
        e = np.zeros(n, dtype=np.int64)
        e[i] = Q - 1
        D[i] = after(e)
    out = []
    for o in range(0, n, max(1, n // 24)):
        up = np.where(D[:, o] > 0, Q - 1, 0)
        out.append((up, up.copy()))
        out.append((Q - 1 - up, up))
    return out


def guided_pairs(fam, n, seed):
    """Operands that put sparse and extreme states before the rounds of the transforms involved (the other operand is 1)."""
    rng = np.random.default_rng(seed)
    one = np.zeros(n, dtype=np.int64)
    one[0] = 1
    W = wrappers(fam, n)
    psi = None
    for role in W:
        if role[0] == 'mulntt':
            psi = psi or role_tr(fam, n, role)[1]
    ip = np.array([pow(psi, -i % (2 * n), Q) for i in range(n)], dtype=np.int64) if psi else None
    rv = np.array([T.bitrev(i, n) for i in range(n)])
    for role in W:
        tr, g = role_tr(fam, n, role)
        if g is None:
            continue
        fwd = role[0] in ('ntt', 'mulntt')
        M = None if fwd else T.matrix(tr, n, g) * pow(n, -1, Q) % Q
        for S in T.guided(tr, n, g, rng, 16, 2):
            X = S % Q if fwd else T.mulmod(M, S.T).T
            if (tr.inrev if fwd else not tr.inrev):          # natural order of the coefficients
                X = X[:, rv]
            for i, x in enumerate(X):
                if ip is not None and tr.mul is None:
                    x = x * ip % Q
                yield (x, one) if i % 3 else (one, x)


def decide_product(fam, n, k, seed, thorough):
    name = product_name(fam, n, k)
    rec = dict(function=name, contract='all a, b in [0,%d]^%d' % (Q - 1, n))
    obl, prob, und, ctx, ex = prove(fam, n, k)
    good = not obl.fails and not prob and not und
    runs = 0
    plan = [lambda: product_search(fam, n, k, seed, 200 if thorough else 24)]
    if not good:
        plan += [lambda: product_search(fam, n, k, seed + 1, 24, True),
                 lambda: product_search(fam, n, k, seed + 2, 400),
                 lambda: product_search(fam, n, k, seed + 3, 0, pairs=guided_pairs(fam, n, seed)),
                 lambda: product_search(fam, n, k, seed + 3, 0, pairs=adversarial(fam, n, k, seed)),
                 lambda: product_search(fam, n, k, seed + 3, 0, True, pairs=adversarial(fam, n, k, seed))]
    ob = prob[0][1] if prob else obl.fails[0]['msg'] if obl.fails else und or 'postcondition (found by running the code)'
    for p in plan:
        r, f, t = native.search(p, timeout=120)
        runs += r
        if f is not None:
            rec.update(status='violated', obligation=ob, input=f, output=dict(problems=prob[:5], failed=[q['msg'] for q in obl.fails[:5]], undecided=und))
            return rec
    if good:
        rec.update(status='proved', obligations=obl.total() + 2 * n, kinds=dict(obl.count, postcondition=2 * n), callees=sorted(ex.inlined))
        return rec
    hard = [t for d, t in prob if d] + [q['msg'] for q in obl.fails if q['kind'] != 'overflow']
    hard += [t for d, t in prob] + [q['msg'] for q in obl.fails]
    if hard and not und:
        rec.update(status='violated', obligation=hard[0], input=None, output=dict(problems=prob[:5], failed=[q['msg'] for q in obl.fails[:5]]))
    else:
        rec.update(status='bounded', bound='%d native runs, random, edge and adversarial inputs' % runs, why=ob, runs=runs)
    return rec


# ------------------------------------------------------------------ C05: wrappers
def wrappers(fam, n):
    """{role: function name}; role = (direction, algorithm, order)."""
    pre = {'default': '%s%d_', 'naive': 'naive_%s%d_', 'lazy': '%s_red%d_', 'asm': '%s_red%d_'}[fam]
    suf = '_asm' if fam == 'asm' else ''
    out = {}
    for d in ('ntt', 'intt'):
        for alg in ('ct', 'gs'):
            for o in ('rev2std', 'std2rev'):
                out[(d, alg, o)] = pre % (d, n) + alg + '_' + o + suf
    for o in ('rev2std', 'std2rev'):
        out[('mulntt', 'ct', o)] = pre % ('mulntt', n) + 'ct_' + o + suf
        out[('inttmul', 'gs', o)] = pre % ('inttmul', n) + 'gs_' + o + suf
    return out


def pairs_of(roles):
    """Forward/inverse pairs whose composition must be n times the identity."""
    out = []
    for f in roles:
        for g in roles:
            if (f[0], g[0]) in (('ntt', 'intt'), ('intt', 'ntt'), ('mulntt', 'inttmul')) and f[2] != g[2]:
                out.append((f, g))
    return out


HDR = {'default': 'ntt%d.h', 'naive': 'naive_ntt%d.h', 'lazy': 'ntt_red%d.h', 'asm': 'ntt_red_asm%d.h'}


def driver(fam, n):
    """A translation unit that exports the inline wrappers."""
    import os
    name = 'vkdrv_%s_%d.c' % (fam, n)
    p = os.path.join(build.source_tree(), name)
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write('#include "%s"\n' % (HDR[fam] % n))
            for w in wrappers(fam, n).values():
                f.write('void vk_%s(int32_t *a) { %s(a); }\n' % (w, w))
    return name


def driver_lib(fam, ub=False):
    fl = ew.UBSAN if ub else ('-O3',)
    src = (build.naive_sources() if fam == 'naive' else build.all_lib_sources()) + [driver(fam, n) for n in SIZES]
    return build.shared_lib(src, fl, 'drv')


def wrapper_module(fam, n):
    files = [f % n if '%' in f else f for f in FAM[fam][1]]
    files = [f for f in files if not (f.startswith(('ntt_red_asm', 'naive_ntt%d' % n)) or f in ('ntt%d.c' % n, 'ntt_red%d.c' % n))]
    return build.module(driver(fam, n), *files)


def prove_wrapper(fam, n, role):
    """The wrapper is the linear map M modulo Q for every in-range input; (obl, M, problems, undecided)."""
    w = wrappers(fam, n)[role]
    ctx = Ctx(ModSpace(0, n))
    obl = Obl()
    tr = T.FAMS[fam]
    try:
        a = T.symbolic_input(ctx, n, tr['inr'])
        ex = Exec(wrapper_module(fam, n), ctx, obl, externs=Asm(ctx, obl) if fam == 'asm' else None)
        ex.call('vk_' + w, [Ptr(a, 0)])
        M = np.zeros((n, n), dtype=np.int16)
        prob = []
        for o, v in enumerate(a.cells):
            m = ctx.mf(v)
            if m.s:
                prob.append((ctx.mf_clean(m), 'output %d of %s is not a combination of the inputs modulo Q' % (o, w)))
            elif m.c is not None:
                M[o] = m.c
            if tr['out']:
                lo, hi = ctx.range(v)
                if lo < tr['out'][0] or hi > tr['out'][1]:
                    prob.append((False, 'output %d of %s in [%d,%d]' % (o, w, lo, hi)))
        return dict(obl=obl.total(), kinds=obl.count, fails=[(q['kind'], q['msg']) for q in obl.fails[:10]], M=M, prob=prob, und=None)
    except Undecided as e:
        return dict(obl=0, kinds={}, fails=[(q['kind'], q['msg']) for q in obl.fails[:10]], M=None, prob=[], und=str(e))
    except Refuted as e:
        return dict(obl=0, kinds={}, fails=[(q['kind'], q['msg']) for q in obl.fails[:10]], M=None, prob=[(True, str(e))], und=None)
    except T.ENGINE as e:
        return dict(obl=0, kinds={}, fails=[], M=None, prob=[], und='engine: %s: %s' % (type(e).__name__, e))


def role_tr(fam, n, role):
    """Documented transform behind a wrapper, its root (found from one run of the real code) and matrix."""
    tr = T.TR({'intt': 'ntt', 'inttmul': 'nttmul'}.get(role[0], role[0]) + '_%s_%s' % role[1:], fam)
    a = np.zeros(n, dtype=np.int32)
    pos = n // 2 if tr.inrev else 1
    a[pos] = 1
    out, _ = native.call(driver_lib(fam), 'vk_' + wrappers(fam, n)[role], [a], order=[('a', 0)])
    e = tr.exps(n)[:, pos]
    for g in T.generator(tr.order(n)):
        if all((pow(g, int(e[i]), Q) - int(out[0][i])) % Q == 0 for i in range(n)):
            return tr, g
    return tr, None


def pair_inputs(fam, n, f, g, rng):
    """Inputs that put sparse and extreme states before the rounds of either transform."""
    lo, hi = T.FAMS[fam]['inr']
    t1, g1 = role_tr(fam, n, f)
    if g1 is not None:
        for X in T.guided(t1, n, g1, rng, 64, 2):
            yield from X
    t2, g2 = role_tr(fam, n, g)
    if g2 is not None:
        M = T.matrix(t2, n, g2)
        inv = pow(n, -1, Q)
        for Y in T.guided(t2, n, g2, rng, 64, 4):
            X = T.mulmod(M, Y.T).T * inv % Q
            yield from (X if lo == 0 else np.where(rng.integers(0, 2, X.shape) == 1, X, X - Q))


def round_trip(fam, n, f, g, seed, rounds, ub=False, guide=False):
    rng = np.random.default_rng(seed)
    L = driver_lib(fam, ub)
    W = wrappers(fam, n)
    lo, hi = T.FAMS[fam]['inr']
    runs = 0
    olo, ohi = T.FAMS[fam]['out'] or (-1 << 31, (1 << 31) - 1)
    for X in pair_inputs(fam, n, f, g, rng) if guide else T.inputs(rng, n, lo, hi, rounds):
        native.note(dict(function=W[f] + ' then ' + W[g], a=X))
        out, ok = native.call(L, 'vk_' + W[f], [X.astype(np.int32)], order=[('a', 0)])
        Y = out[0].astype(np.int64)
        if fam in ('lazy', 'asm'):
            Y = Y % Q
            Y = np.where(rng.integers(0, 2, n) == 1, Y, Y - Q)
        out, ok2 = native.call(L, 'vk_' + W[g], [Y.astype(np.int32)], order=[('a', 0)])
        Z = out[0].astype(np.int64)
        runs += 1
        bad = np.nonzero(((Z - n * X) % Q != 0) | (Z < olo) | (Z > ohi))[0]
        if len(bad):
            i = int(bad[0])
            return runs, dict(function=W[f] + ' then ' + W[g], n=n, a=X.tolist(), index=i, observed=int(Z[i]), required='%d * %d modulo %d, within [%d,%d]' % (n, X[i], Q, olo, ohi))
        if not (ok and ok2):
            return runs, dict(function=W[f] + ' then ' + W[g], n=n, a=X.tolist(), observed='memory next to the array was overwritten')
    return runs, None


def decide_pair(fam, n, f, g, rf, rg, seed, thorough):
    W = wrappers(fam, n)
    name = '%s then %s' % (W[f], W[g])
    rec = dict(function=name, contract='all inputs in [%d,%d]: n times the input modulo Q' % T.FAMS[fam]['inr'])
    why = None
    hard = False
    for r in (rf, rg):
        if r['und'] or r['fails'] or r['prob']:
            why = r['und'] or (r['prob'][0][1] if r['prob'] else r['fails'][0][1])
            hard = hard or not r['und']
    if why is None:
        P = T.mulmod(rg['M'].astype(np.int64), rf['M'].astype(np.int64))
        E = np.eye(n, dtype=np.int64) * (n % Q)
        if (P != E).any():
            i, j = (int(v) for v in np.argwhere(P != E)[0])
            why = 'coefficient of input %d in output %d is %d modulo Q, not %d' % (j, i, P[i, j], E[i, j])
            hard = True
    runs, fl, t = native.search(lambda: round_trip(fam, n, f, g, seed, 6 if why is None and not thorough else 100))
    if fl is None and why is not None:
        r2, fl, t = native.search(lambda: round_trip(fam, n, f, g, seed + 1, 40, True))
        runs += r2
        if fl is None:
            r2, fl, t = native.search(lambda: round_trip(fam, n, f, g, seed + 2, 0, guide=True))
            runs += r2
    if fl is not None:
        rec.update(status='violated', obligation=why or 'round trip (found by running the code)', input=fl)
    elif why is None:
        rec.update(status='proved', obligations=n)
    elif hard:
        rec.update(status='violated', obligation=why, input=None, output=dict(forward=rf['prob'][:5], inverse=rg['prob'][:5]))
    else:
        rec.update(status='bounded', bound='%d native round trips' % runs, why=why, runs=runs)
    return rec
