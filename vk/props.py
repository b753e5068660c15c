"""One decision procedure per property."""
import re
from . import build, ew, par

COMMON = ['clang 18 translation of the C source to LLVM IR at -O0 (the proof is about that IR), and the C compiler used for the shipped build',
          'the VC generator in /verif/vk: LLVM IR and x86-64/AVX2 semantics, term arithmetic, and z3 4.x (python3-vt) for side conditions',
          'the Python 3.12 and numpy runtime']
ASM = ['GNU as/objdump: the proof is about the disassembly of the assembled ntt_asm.S']


def merge(chk, results):
    """Adds task records to the report."""
    for key, (st, v) in results.items():
        if st != 'ok':
            chk.bounded_ok(str(key), 'task', 'none', 'the proof task ended with %s: %s' % (st, str(v)[-600:]))
            continue
        for rec in (v if isinstance(v, list) else [v]):
            add(chk, rec)


def add(chk, rec):
    chk.kind(rec.get('kinds') or {})
    s = rec['status']
    if s == 'proved':
        chk.proved(rec['function'], rec['contract'], rec['obligations'], rec.get('backend', 'vk term engine + z3'))
    elif s == 'bounded':
        chk.bounded_ok(rec['function'], rec['contract'], rec['bound'], rec['why'], rec.get('runs', 0))
    else:
        chk.violation(rec['function'], rec['contract'], rec['obligation'], rec.get('input'), rec.get('output'))


def libs(naive=False, ub=True):
    build.source_tree()
    for fl in (('-O3',), ew.UBSAN) if ub else (('-O3',),):
        build.shared_lib(None, fl)
        if naive:
            build.shared_lib(build.naive_sources(), fl, 'naive')


def ew_property(chk, cts, naive=False):
    libs(naive)
    for s in {c.src for c in cts}:
        if s == 'asm':
            from . import x86
            x86.image()
        else:
            ew.modules(s)
    merge(chk, par.run([((c.name, c.label()), ew.decide, (c, chk.seed, chk.tier == 'thorough')) for c in cts], timeout=400))
    return len(cts)


def c08(chk):
    chk.trusted += COMMON + ASM
    chk.assumptions.append('array pointers passed to the library are valid, suitably aligned for their element type, and distinct unless the contract lists the aliasing')
    return ew_property(chk, ew.red_contracts())


def c09(chk):
    chk.trusted += COMMON
    chk.assumptions.append('array pointers passed to the library are valid, suitably aligned for their element type, and distinct unless the contract lists the aliasing')
    return ew_property(chk, ew.mul_contracts(), naive=True)


PROPS = {'C08': c08, 'C09': c09}


def transform_property(chk, fam):
    from . import transforms as T
    th = chk.tier == 'thorough'
    libs(fam == 'naive')
    trs = T.family(fam)
    if fam != 'asm':
        ew.modules(T.FAMS[fam]['src'])
    tasks = [((t.name, n), T.decide, (t, n, chk.seed, th)) for n in sorted(T.FAMS[fam] and trs[0].sizes(th), reverse=True) for t in trs if n in t.sizes(th)]
    res = par.run([x for x in tasks if x[0][1] <= 64], timeout=600, deadline=par.PROOF_END)
    bad = {name for (name, n), (st, v) in res.items() if st != 'ok' or v['status'] == 'open'}
    # a transform that fails at a small size gets little time at the large ones: running the code comes next
    res.update(par.run([x for x in tasks if x[0][1] > 64 and x[0][0] in bad], timeout=40, deadline=par.PROOF_END))
    res.update(par.run([x for x in tasks if x[0][1] > 64 and x[0][0] not in bad], timeout=600, deadline=par.PROOF_END))
    by = {t.name: [] for t in trs}
    for (name, n), (st, v) in res.items():
        if st != 'ok':
            v = dict(function=name, contract='n=%d, all contents, all roots' % n, status='open', problems=[], failed=[], undecided='task ended with %s: %s' % (st, str(v)[-400:]))
        by[name].append(v)
    merge(chk, par.run([(t.name, T.resolve, (t, by[t.name], chk.seed, th)) for t in trs], timeout=700))
    return len(tasks)


ROOTS = 'roots: table entries are the documented powers of an element g with g^(N/2) = -1 modulo 12289 (N the order); established for the shipped tables and the generators by C05, C06 and C11'


def c01(chk):
    chk.trusted += COMMON
    chk.assumptions.append(ROOTS)
    return transform_property(chk, 'default')


def c02(chk):
    chk.trusted += COMMON
    chk.assumptions.append(ROOTS)
    return transform_property(chk, 'lazy')


def c04(chk):
    chk.trusted += COMMON
    chk.assumptions.append(ROOTS)
    return transform_property(chk, 'naive')


PROPS.update(C01=c01, C02=c02, C04=c04)


def c03(chk):
    from . import same as S, transforms as T, x86
    th = chk.tier == 'thorough'
    chk.trusted += COMMON + ASM
    chk.assumptions += [ROOTS, 'array pointers are valid and distinct unless the contract lists the aliasing']
    libs(ub=False)
    ew.modules('ntt_red.c')
    x86.image()
    tasks = [((b, n), S.decide, (b, n, R)) for n in (2048, 1024, 512, 256, 128, 64, 32, 16) for b in T.BASE for m, R in S.sizes(b) if m == n]
    tasks += [((a.name, a.label()), S.ew_decide, (a, c, chk.seed, th)) for a, c in S.pairs()]
    res = par.run(tasks, timeout=600, deadline=par.PROOF_END)
    by = {b: [] for b in T.BASE}
    rest = {}
    for k, (st, v) in res.items():
        if k[0] in by:
            by[k[0]].append(v if st == 'ok' else dict(function=T.TR(k[0], 'asm').name, contract='n=%d' % k[1], status='open', why='task ended with %s: %s' % (st, str(v)[-400:])))
        else:
            rest[k] = (st, v)
    merge(chk, rest)
    merge(chk, par.run([(b, S.resolve, (b, by[b], chk.seed, th)) for b in T.BASE], timeout=700))
    return len(tasks)


PROPS['C03'] = c03


def c05(chk):
    from . import products as P
    th = chk.tier == 'thorough'
    chk.trusted += COMMON + ASM
    chk.assumptions.append('lazy and AVX2 families: between forward and inverse the caller brings the coefficients back into the documented range [-21499,21499] by any residue-preserving step (the proof holds for every such representative)')
    build.source_tree()
    fams = ('asm', 'lazy', 'default', 'naive')
    for f in fams:
        for n in P.SIZES:
            P.driver(f, n)
            P.wrapper_module(f, n)
        P.driver_lib(f)
        P.driver_lib(f, True)
    from . import x86
    x86.image()
    tasks = [((f, n, r), P.prove_wrapper, (f, n, r)) for n in sorted(P.SIZES, reverse=True) for f in fams for r in P.wrappers(f, n)]
    res = {}
    for k, (st, v) in par.run(tasks, timeout=400, deadline=par.PROOF_END).items():
        res[k] = v if st == 'ok' else dict(obl=0, kinds={}, fails=[], M=None, prob=[], und='task ended with %s: %s' % (st, str(v)[-300:]))
    for (f, n, r), v in res.items():
        if not (v['und'] or v['fails'] or v['prob']):
            chk.proved(P.wrappers(f, n)[r], 'all inputs in range: a linear map modulo Q, no overflow, in bounds', v['obl'] + n)
            chk.kind(v['kinds'])
    t2 = [((f, n, a, b), P.decide_pair, (f, n, a, b, res[(f, n, a)], res[(f, n, b)], chk.seed, th))
          for f in fams for n in P.SIZES for a, b in P.pairs_of(list(P.wrappers(f, n)))]
    merge(chk, par.run(t2, timeout=400))
    return len(t2)


def c06(chk):
    from . import products as P
    th = chk.tier == 'thorough'
    chk.trusted += COMMON + ASM
    chk.assumptions.append('the three arrays of a product call are distinct')
    libs(True)
    from . import x86
    x86.image()
    fams = ('asm', 'lazy', 'default', 'naive')
    for f in fams:
        for n in P.SIZES:
            P.module(f, n)
            P.driver(f, n)
        P.driver_lib(f)
    tasks = [((f, n, k), P.decide_product, (f, n, k, chk.seed, th)) for n in sorted(P.SIZES, reverse=True) for f in fams for k in range(1, 6)]
    merge(chk, par.run(tasks, timeout=800))
    return len(tasks)


PROPS.update(C05=c05, C06=c06)


def c07(chk):
    from . import memcheck as M, transforms as T, products as P, x86
    chk.trusted += COMMON + ASM
    chk.assumptions += ['array pointers passed to the library point to arrays of the documented length (n elements; tables of n entries)',
                        'AVX2 routines: n is a positive multiple of 16, for transforms a power of two at least 16, as documented']
    libs(True, ub=False)
    x86.image()
    M.abi_lib()
    for f in ('ntt.c', 'naive_ntt.c', 'ntt_red.c'):
        ew.modules(f)
    tasks = []
    fams = ('asm', 'lazy', 'default', 'naive')
    for f in fams:
        for n in P.SIZES:
            P.driver(f, n)
            P.module(f, n)
            P.wrapper_module(f, n)
        P.driver_lib(f)
    for f in fams:
        tasks += [(('t', t.name), M.decide_transform, (t, chk.seed, chk.tier == 'thorough')) for t in T.family(f)]
    for f in fams:
        for n in sorted(P.SIZES, reverse=True):
            tasks.append((('w', f, n), M.decide_wrappers, (f, n, chk.seed)))
            tasks += [(('p', f, n, k), M.decide_product, (f, n, k, chk.seed)) for k in range(1, 6)]
    seen = set()
    for c in ew.red_contracts() + ew.mul_contracts():
        if (c.name, c.alias) not in seen:
            seen.add((c.name, c.alias))
            tasks.append((('e', c.name, c.alias), M.decide_ew, (c, chk.seed)))
    from . import bitrevp as B, hprop
    sh = hprop.driver('shuffle', [('ntt.c', 'p_', ()), ('naive_ntt.c', 'q_', ())], ('-O3',))
    for f in ('ntt.c', 'naive_ntt.c'):
        tasks.append((('s', f), M.decide_shuffle, ('shuffle_with_table', f, 'any number of disjoint pairs inside the array', B.prove_table_shuffle, (f,), sh, chk.seed)))
        tasks += [(('b', f, k), M.decide_shuffle, ('bitrev_shuffle', f, 'n=2^%d, any contents' % k, B.prove_shuffle, (f, k), sh, chk.seed)) for k in range(31, -1, -1)]
    merge(chk, par.run(tasks, timeout=500))
    return len(tasks)


PROPS['C07'] = c07


def c15(chk):
    from . import hprop as P, sortp as S
    th = chk.tier == 'thorough'
    chk.trusted += COMMON
    chk.assumptions += ['the array has n elements and does not overlap the stack; the stack is large enough for the recursion (depth below n)',
                        'a permutation of a part of the array keeps every bound on that part (mathematical lemma behind the recursive contract)']
    build.source_tree()
    build.ir_text('sort.c')
    exes = [P.driver('sort', ['sort.c'], fl) for fl in (('-O3',), P.UB)]
    names = ('qsort_int_array', 'isort_int_array', 'sort_array', 'sort')
    nat = P.once(lambda: P.native(exes, (chk.seed, int(th))))
    proofs = P.proofs([(w, S.prove, (w,)) for w in names], 300, nat)
    for rec in P.resolve('sort', 'all arrays of all lengths below 2^32: sorted, permutation, in bounds, terminates', proofs,
                         nat, 'all arrays over small alphabets up to length 13, patterns and random values up to length 10^6', also=th):
        add(chk, rec)
    return 1


PROPS['C15'] = c15


def c16(chk):
    import os
    from . import hprop as P, avxdet as D, x86
    th = chk.tier == 'thorough'
    chk.trusted += COMMON + ASM
    chk.assumptions += ['CPUID leaves 0 and 1 do not depend on the sub-leaf; a processor that reports OSXSAVE or AVX also reports leaf 0Dh (Intel SDM), so leaf 7 is valid on it',
                        'XGETBV with ECX = 0 is available exactly when OSXSAVE is reported (Intel SDM)']
    x86.image()
    box = {}

    def prove():
        box['d'] = D.prove()
        return box['d']
    n, bad, und, kinds = P.attempt(prove)
    exe = P.driver('avx', [], ('-O2',), defs=('-ldl',))
    words = '-'
    if 'd' in box and box['d'].models:
        m = box['d'].models[0][1]
        words = ','.join(str(m[k]) for k in ('ecx1', 'ebx7', 'xcr0', 'xcr0hi', 'eax0', 'ebx1', 'edx1', 'eax1', 'eax7', 'ecx7', 'edx7'))
    args = [os.path.join(build.scratch(), 'asmimg.so'), chk.seed, int(th), words] + ['%d:%s' % p for p in D.patches()]
    recs = P.resolve('avx2_supported', 'all CPUID words and XCR0 values', [('avx2_supported', n, bad, und, kinds)], lambda: P.native([exe], args, 100),
                     'all combinations of the relevant bits with random other bits, on the assembled routine', backend='vk x86 integer executor + z3 bit-vectors', also=th)
    for rec in recs:
        add(chk, rec)
    return 1


PROPS['C16'] = c16


def bound_tasks():
    from . import redb as R
    tasks = [('lemmas', R.prove_lemmas, ()), ('gcd4096', R.prove_gcd, ())]
    tasks += [(w, R.prove_red, (w,)) for w in ('max_red', 'min_red')]
    tasks += [('%s, w %s 0' % (w, {1: '>', -1: '<', 0: '='}[s]), R.prove_mul, (w, s)) for w in ('max_red_mul', 'min_red_mul') for s in (1, -1, 0)]
    return tasks + [('%s, %s' % (w, {1: 'low > 0', -1: 'high < 0', 0: 'low <= 0 <= high'}[s]), R.prove_interval, (w, s)) for s in (0, 1, -1) for w in ('max_red_mul_interval', 'min_red_mul_interval')]


def c14(chk):
    from . import hprop as P, redb as R, dag
    from .transforms import family
    th = chk.tier == 'thorough'
    chk.trusted += COMMON
    chk.assumptions += ['ranges and multipliers whose products stay within +-2^62 (2^61 for the butterfly bounds); a <= b, low <= high',
                        'stage bounds: table entries of absolute value up to 6144, input bound up to 2^28, n a power of two up to 2048; the transforms without powers of psi use a table with p[t] = -4096 (1/3), as documented']
    build.source_tree()
    for f in ('red_bounds.c', 'ntt_red.c'):
        build.ir_text(f)
    exes = [P.driver('redb', ['red_bounds.c', 'ntt_red.c'], fl) for fl in (('-O3',), P.UB)]
    tasks = bound_tasks()
    tasks += [(w, R.prove_step, (w,)) for w in ('ct_bound', 'gs_bound', 'ct_bound_fixed', 'gs_bound_fixed')]
    tasks += [('%s, n=%d' % (w, 1 << k), R.prove_stages, (w, 1 << k)) for w in ('ntt_ct_bounds', 'ntt_gs_bounds') for k in range(12)]
    tasks += [('%s, n=%d' % (t.name, n), R.prove_link, (t.name, n)) for n in [2 << k for k in range(11)] for t in family('lazy')]
    nat = P.once(lambda: P.native(exes, (chk.seed, int(th)), 500))
    proofs = P.proofs(tasks, 400, nat)
    for rec in P.resolve('red_bounds', 'upper/lower bounds, attained; stage bounds cover every round of the transforms', proofs,
                         nat, 'enumeration of all inputs of sampled ranges, multipliers and intervals; stage bounds against the real transforms up to n=2048', also=th):
        add(chk, rec)
    return 1


PROPS['C14'] = c14


def c12(chk):
    from . import hprop as P, ivl as I
    th = chk.tier == 'thorough'
    chk.trusted += COMMON
    chk.assumptions += ['arguments are valid intervals (min <= max); shift: within [0,12288], correct: within [-12289,24577], as documented; red_scale and red_mul: products within +-2^62',
                        'malloc returns a fresh object of the requested size or NULL; free, exit, abort and fprintf as in the C standard']
    build.source_tree()
    for f in ('intervals.c', 'red_bounds.c'):
        build.ir_text(f)
    ren = ('-Dexit=vk_exit', '-Dabort=vk_abort')
    exes = [P.driver('intervals', ['intervals.c', 'red_bounds.c'], fl + ren) for fl in (('-O3',), P.UB)]
    tasks = interval_tasks()
    nat = P.once(lambda: P.native(exes, (chk.seed, int(th)), 400))
    proofs = P.proofs(tasks, 300, nat)
    for rec in P.resolve('intervals', 'all intervals, all values inside: encloses the concrete result; stops exactly when the exact range does not fit; fresh result, arguments unchanged', proofs,
                         nat, 'all sub-intervals near the special points and random intervals, sampled values inside', also=th):
        add(chk, rec)
    return len(tasks)


PROPS['C12'] = c12


def interval_tasks():
    from . import ivl as I
    return bound_tasks() + [('lemmas of intervals.c', I.prove_lemmas, ())] + [(o + (' (same argument twice)' if al else ''), I.prove, (o, al)) for o, al in I.cases()]


def c13(chk):
    import os
    from . import hprop as P, absint as A
    from .transforms import family
    th = chk.tier == 'thorough'
    chk.trusted += COMMON
    chk.assumptions += ['the interval objects in the array are distinct and valid (min <= max); inputs of shift and correct in their documented ranges',
                        'the analysis is run while products of bounds stay within +-2^62 (beyond that an overflow of 32 bits has been reported long before)',
                        'a report is a printed line that mentions overflow']
    build.source_tree()
    for f in (A.SRC, 'ntt_red.c', 'intervals.c', 'red_bounds.c'):
        build.ir_text(f)
    for f in (A.SRC, 'ntt_red.c'):
        ew.modules(f)
    ren = ('-Dexit=vk_exit', '-Dabort=vk_abort', '-Dprintf=vk_printf', '-Dfprintf=vk_fprintf')
    exe = P.driver('absint', ['intervals.c', 'red_bounds.c', A.SRC, ('ntt_red.c', 'r32_', ()), ('ntt_red.c', 'r64_', ('-include', os.path.join(P.DRV, 'i64.h')))], ('-O3', '-fwrapv', '-U_FORTIFY_SOURCE') + ren)
    sizes = [1 << k for k in range(12 if th else 11)]
    tasks = [('%s, n=%d' % (t.name, n), A.prove_transform, (t.name, n)) for n in reversed(sizes) for t in family('lazy')]
    tasks += [('abstract_%s, n=%d' % (o[0], n), A.prove_op, o + (n,)) for o in A.ops() for n in (0, 1, 2, 3, 4, 5, 7, 8, 16, 33)]
    tasks += interval_tasks()
    nat = P.once(lambda: P.native([exe], (chk.seed, int(th)), 300))
    proofs = P.proofs(tasks, 500, nat)
    for rec in P.resolve('ntt_red_interval', 'all tables, all input intervals, all values inside: final intervals contain the results of the real routine; 32-bit overflow is reported', proofs,
                         nat, 'n up to 64, sampled tables, intervals and values', backend='vk term engine and Hoare engine + z3', also=th):
        add(chk, rec)
    return len(tasks)


PROPS['C13'] = c13


def generator(kind):
    """The driver program with a real generator inside."""
    from . import hprop as P
    ren = ('-UNDEBUG', '-U_FORTIFY_SOURCE', '-Dmain=gen_main', '-Dexit=vk_exit', '-Dabort=vk_abort', '-Dfopen=vk_fopen', '-Dfclose=vk_fclose')
    return P.driver('gen', [({'plain': 'make_tables.c', 'red': 'make_red_tables.c', 'bitrev': 'make_bitrev_table.c'}[kind], None, ren)], ('-O2',))


def sweep(jobs):
    """jobs: list of (exe, args).  In parallel; -> (runs, failing input, trouble)"""
    from . import hprop as P
    res = par.run([(k, P.rundrv, (e, a, par.left(400))) for k, (e, a) in enumerate(jobs)], timeout=420)
    runs, trouble = 0, None
    for k in range(len(jobs)):
        st, v = res[k]
        if st != 'ok':
            trouble = 'native runs ended with ' + st
            continue
        if v[1] is not None:
            return runs, v[1], None
        runs += v[0]
        trouble = v[2] or trouble
    return runs, None, trouble


def compile_all(jobs):
    from . import gen as G
    if not jobs:
        return 0, None, None
    G.compiled(*jobs[0])
    res = par.run([(j, G.compiled, j) for j in jobs], timeout=300)
    for j in jobs:
        st, v = res[j]
        if st != 'ok':
            return 0, None, 'compilation of generated files ended with %s: %s' % (st, v)
        if v is not None:
            return 0, v, None
    return len(jobs), None, None


def chain(*fs):
    runs, tr = 0, None
    for f in fs:
        n, inp, t = f()
        runs += n
        if inp is not None:
            return runs, inp, None
        tr = tr or t
    return runs, None, tr


def c10(chk):
    from . import hprop as P, bitrevp as B, gen as G
    th = chk.tier == 'thorough'
    chk.trusted += COMMON
    chk.assumptions += ['shuffle_with_table: the pairs of the table are pairwise disjoint and inside the array (proved of the provided and of the generated tables)',
                        'the C library as contracts in the generator: atol returns the number written in the argument, fopen succeeds and gives a fresh stream, fprintf writes the formatted text (the failure paths of fopen only print and exit)']
    build.source_tree()
    for f in ('ntt.c', 'naive_ntt.c'):
        build.ir_text(f)
    build.ir_text('make_bitrev_table.c', G.FLAGS)
    sh = P.driver('shuffle', [('ntt.c', 'p_', ()), ('naive_ntt.c', 'q_', ())], ('-O3',))
    ge = generator('bitrev')
    files = ('ntt.c', 'naive_ntt.c')
    groups = [
        ('bitrev_shuffle, shuffle_with_table', 'every length 2^k, k = 0..31, all contents: a[m] becomes a[rev m]; any table of disjoint pairs, any length: exactly those exchanges',
         [('shuffle_with_table in %s' % f, B.prove_table_shuffle, (f,)) for f in files] +
         [('bitrev_shuffle in %s, n=2^%d' % (f, k), B.prove_shuffle, (f, k)) for k in range(31, -1, -1) for f in files],
         lambda: P.native([sh], (chk.seed, 24 if th else 21), 300), 'n = 2^0 .. 2^21, two contents each', 'vk bit-vector engine (one arbitrary iteration and element) + z3'),
        ('make_bitrev_table', 'every size it accepts: each pair (i, rev i) with i < rev i exactly once, matching header; every other size is refused',
         [('reverse', G.prove_reverse, ('make_bitrev_table.c',)), ('logtwo', G.prove_logtwo, ('make_bitrev_table.c', 65534)), ('refusals', G.prove_bitrev_refuses, ())] +
         [('table of size %d' % (1 << k), G.prove_bitrev_gen, (1 << k,)) for k in range(15, 0, -1)],
         lambda: chain(lambda: P.native([ge], ('bitrev', -70, 140000, 0, 0, 1, 0), 300), lambda: compile_all([('bitrev', 1 << k) for k in range(15, 0, -1)])),
         'all sizes from -70 to 140000, files compiled for all sizes accepted', 'vk term engine and bit-vector engine + z3'),
        ('provided tables', 'src/bitrev<n>_table.c, n = 16, 256, 512, 1024: each pair exactly once',
         [('bitrev%d_table' % n, B.shipped, (n,)) for n in (16, 256, 512, 1024)],
         lambda: chain(*[lambda n=n: (1, B.run_shipped(n), None) for n in (16, 256, 512, 1024)]), 'all four tables run', 'vk term engine')]
    tasks = [t for g in groups for t in g[2]]
    res = par.run([(w, P.attempt, (f,) + a) for w, f, a in tasks], timeout=300, deadline=par.PROOF_END)
    for fn, contract, ts, nat, bound, be in groups:
        proofs = [(w,) + (v if st == 'ok' else (0, [], 'proof task ended with ' + st, {})) for w, (st, v) in ((w, res[w]) for w, _, _ in ts)]
        for rec in P.resolve(fn, contract, proofs, nat, bound, backend=be, also=th or fn != 'bitrev_shuffle, shuffle_with_table'):
            add(chk, rec)
    return len(tasks)


PROPS['C10'] = c10


def c11(chk):
    from . import hprop as P, gen as G
    th = chk.tier == 'thorough'
    chk.trusted += COMMON
    chk.assumptions += ['the C library as contracts in the generators: atol returns the number written in the argument, fopen succeeds and gives a fresh stream, malloc succeeds, fprintf writes the formatted text (the failure paths only print and exit)',
                        'the group of units modulo 12289 has 12288 = 2^12 * 3 elements: psi^n = -1 with n a power of two means psi has order exactly 2n, and is possible for n up to 2048 only']
    build.source_tree()
    tasks, group = [], {}
    for kind in ('plain', 'red'):
        src = G.KIND[kind][0]
        build.ir_text(src, G.FLAGS)
        group[kind] = [('%s, n=%d' % (src, 1 << k), G.prove_tables, (kind, 1 << k)) for k in range(11, 0, -1)]
        group[kind] += [('inverse in %s, arguments %d..%d' % (src, a, min(a + 1536, 12289) - 1), G.prove_inverse, (src, a, min(a + 1536, 12289))) for a in range(1, 12289, 1536)]
        group[kind] += [('reverse in ' + src, G.prove_reverse, (src,)), ('logtwo in ' + src, G.prove_logtwo, (src, 99999)), ('power in ' + src, G.prove_power, (src,)), ('refusals of ' + src, G.prove_refuses, (kind,))]
        tasks += group[kind]
    tasks.sort(key=lambda t: -t[2][1] if t[1] is G.prove_tables else 0)
    res = par.run([(w, P.attempt, (f,) + a) for w, f, a in tasks], timeout=300, deadline=par.PROOF_END)
    for kind in ('plain', 'red'):
        exe = generator(kind)
        proofs = [(w,) + (v if st == 'ok' else (0, [], 'proof task ended with ' + st, {})) for w, (st, v) in ((w, res[w]) for w, _, _ in group[kind])]
        bad = th or any(p[2] or p[3] for p in proofs)

        def nat():
            comp = [(kind, 1 << k, p) for k in range(1, 12) for p in (G.roots(1 << k) if bad and k < 4 else G.roots(1 << k)[chk.seed % 2::1 << (k - 1)][:1])]
            jobs = []
            if bad:
                jobs += [(exe, (kind, 1 << k, 1 << k, -3, 12300, m, o)) for k, m in ((11, 8), (10, 4), (9, 2)) for o in range(m)]
                jobs += [(exe, (kind, 1 << k, 1 << k, -3, 12300, 1, 0)) for k in list(range(9)) + list(range(12, 17))]
                jobs += [(exe, (kind, a, a + 24999, 1212, 1212, 1, 0)) for a in range(0, 100000, 25000)]
                jobs += [(exe, (kind, -40, 40, -40, 40, 1, 0)), (exe, (kind, 99990, 140000, 1212, 1212, 1, 0)), (exe, (kind, 131072, 131072, 2, 12288, 1, 0))]
            else:
                jobs += [(exe, (kind, 1 << k, 1 << k, -3, 12300, 1 << max(0, k - 4), chk.seed % (1 << max(0, k - 4)))) for k in range(1, 12)]
            return chain(lambda: compile_all(comp), lambda: sweep(jobs))
        for rec in P.resolve(G.KIND[kind][0], 'every size n and root psi with psi^n = -1: tables and constants are the documented powers, centred where documented; everything else is refused without a file', proofs, nat,
                             'all 4094 accepted pairs, all sizes below 140000 with one root, all roots for each power of two; files compiled for a sample' if bad else 'a sample of accepted pairs', backend='vk term engine over powers of psi, vk bit-vector engine + z3', also=True):
            add(chk, rec)
    return len(tasks)


PROPS['C11'] = c11
