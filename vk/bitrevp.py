"""C10: the shuffles and the table generator."""
import z3
from . import build, bv
from .bv import Machine, Arr, BPtr, Loop, St, bvv, rev, fit
from .terms import Undecided


def prove_shuffle(src, k):
    """bitrev_shuffle at n = 2^k: a'[m] = a[rev(m)] for every m and all contents."""
    mod = build.module(src)
    M = Machine(mod)
    f = mod.funcs.get('bitrev_shuffle')
    if f is None:
        raise Undecided('bitrev_shuffle not found')
    n = 1 << k
    N = bvv(n, 64)
    a = Arr('a', 4, N)
    A0 = z3.Array('A0', z3.BitVecSort(64), z3.BitVecSort(32))
    st = St()
    st.mem[a] = A0
    r64 = lambda x: rev(x, k, 64)

    def templates(it, w, v0):
        for c in (0, 1, 2):
            x = it + c
            yield fit(x, w)
            yield rev(x, k, w)
            yield fit(x * 4, w)
        for c in (-2, -1, 0):
            x = N - it + c
            yield fit(x, w)
            yield rev(x, k, w)
        yield v0

    def lower(m):
        q = r64(m)
        return z3.If(z3.ULT(m, q), m, q)

    def inv(v, mem, m, it):
        A = mem[a]
        if v[0] == 'up':
            done = z3.ULT(lower(m), it + v[1])
        else:
            done = z3.UGT(lower(m), N - it + v[1]) if v[1] else z3.UGE(lower(m), N - it)
        return z3.Implies(z3.ULT(m, N), z3.Select(A, m) == z3.If(done, z3.Select(A0, r64(m)), z3.Select(A0, m)))

    def hyp(it, idx):
        return []

    def post(mem, m):
        return z3.Implies(z3.ULT(m, N), z3.Select(mem[a], m) == z3.Select(A0, r64(m)))

    L = Loop(M, f, [BPtr(a, bvv(0, 64)), bvv(n, 32)], [a], templates, inv, hyp, N, post, 'bitrev_shuffle')
    L.prove([('up', 1), ('up', 0), ('up', 2), ('down', 0), ('down', -1), ('down', -2)], st)
    return M


def prove_table_shuffle(src):
    """shuffle_with_table, any number of pairs: the transpositions of pairwise disjoint pairs, all of them, and nothing else."""
    mod = build.module(src)
    M = Machine(mod)
    f = mod.funcs.get('shuffle_with_table')
    if f is None:
        raise Undecided('shuffle_with_table not found')
    np_ = z3.BitVec('npairs', 32)
    NP = z3.ZeroExt(32, np_)
    la = z3.BitVec('len', 64)
    a, p = Arr('a', 4, la), Arr('p', 2, 2 * NP, False)
    A0 = z3.Array('A0', z3.BitVecSort(64), z3.BitVecSort(32))
    T = z3.Array('T', z3.BitVecSort(64), z3.BitVecSort(16))
    S = z3.BitVecSort(64)
    pos, par = z3.Function('pos', S, S), z3.Function('partner', S, S)
    st = St()
    st.mem[a], st.mem[p] = A0, T

    def pair(t):
        return fit(z3.Select(T, 2 * t), 64), fit(z3.Select(T, 2 * t + 1), 64)

    def wf(t):
        x, y = pair(t)
        return z3.Implies(z3.ULT(t, NP), z3.And(x != y, z3.ULT(x, la), z3.ULT(y, la), pos(x) == t, pos(y) == t, par(x) == y, par(y) == x))

    def mem_ok(m):
        x, y = pair(pos(m))
        return z3.Implies(z3.ULT(pos(m), NP), z3.Or(z3.And(m == x, par(m) == y), z3.And(m == y, par(m) == x)))

    def hyp(it, idx):
        out = [mem_ok(m) for m in idx]
        if it is not None:
            out.append(wf(it))
            out.append(wf(NP - 1 - it))
        return out

    def templates(it, w, v0):
        for c in (0, 1):
            yield fit(it + c, w)
            yield fit(2 * it + c, w)
        for c in (-1, 0):
            yield fit(NP - it + c, w)
        yield v0

    def inv(v, mem, m, it):
        done = z3.ULT(pos(m), it) if v == 'up' else z3.And(z3.ULT(pos(m), NP), z3.UGE(pos(m), NP - it))
        return z3.Select(mem[a], m) == z3.If(done, z3.Select(A0, par(m)), z3.Select(A0, m))

    L = Loop(M, f, [BPtr(a, bvv(0, 64)), BPtr(p, bvv(0, 64)), np_], [a, p], templates, inv, hyp, NP,
             lambda mem, m: z3.Select(mem[a], m) == z3.If(z3.ULT(pos(m), NP), z3.Select(A0, par(m)), z3.Select(A0, m)), 'shuffle_with_table')
    L.prove(['up', 'down'], st)
    return M


def shipped(n):
    """The table files that come with the sources: the pairs (i, rev i) with i < rev i, each once."""
    import os
    from .gen import Rep, bitrev
    R = Rep()
    c = os.path.join(build.SRC, 'bitrev%d_table.c' % n)
    if not os.path.exists(c):
        R.need(True, 'no table for %d comes with the sources' % n)
        return R
    from .irparse import parse_module, Module
    from .irexec import Exec, Obl
    from .terms import Ctx
    prog = '#include "bitrev%d_table.h"\n#include "bitrev%d_table.c"\nconst unsigned vk_np = BITREV%d_NPAIRS;\n' % (n, n, n)
    t = build.sh(['clang', '-O0', '-w', '-x', 'c', '-I', build.SRC] + build.CFLAGS + ['-S', '-emit-llvm', '-o', '-', '-'], input=prog).stdout
    mod = Module()
    parse_module(t, mod)
    ex = Exec(mod, Ctx(), Obl())
    k = n.bit_length() - 1
    want = {(i, bitrev(i, k)) for i in range(n) if i < bitrev(i, k)}
    v = ex.global_region('bitrev%d' % n).cells
    got = list(zip(v[::2], v[1::2]))
    R.need(ex.global_region('vk_np').cells[0] == len(want), 'shipped table for %d: number of pairs' % n)
    R.need(len(got) == len(want) and len(set(got)) == len(got), 'shipped table for %d: each pair once' % n)
    for p in got:
        R.need(p in want, 'shipped table for %d: pair %r is (i, bit-reverse of i) with i smaller' % (n, p))
    return R


def run_shipped(n):
    """The real shuffle with the shipped table: failing input or None."""
    import os, subprocess
    from .gen import bitrev
    if not os.path.exists(os.path.join(build.SRC, 'bitrev%d_table.c' % n)):
        return None
    d = build.source_tree()
    s = os.path.join(build.scratch(), 'ship%d' % n)
    os.makedirs(s, exist_ok=True)
    import shutil
    for e in 'ch':
        shutil.copy(os.path.join(build.SRC, 'bitrev%d_table.%s' % (n, e)), s)
    with open(os.path.join(s, 'm.c'), 'w') as f:
        f.write('#include <stdio.h>\n#include "bitrev%d_table.h"\n#include "ntt.h"\nint32_t a[70000];\nint main(void) { int i; for (i = 0; i < 70000; i++) a[i] = i; shuffle_with_table(a, bitrev%d, BITREV%d_NPAIRS); for (i = 0; i < %d; i++) printf("%%d\\n", (int) a[i]); return 0; }\n' % (n, n, n, n))
    build.sh(['gcc', '-w', '-O2', '-iquote', s, '-I', d] + build.CFLAGS + ['-o', os.path.join(s, 'm'), os.path.join(s, 'm.c'), os.path.join(s, 'bitrev%d_table.c' % n), os.path.join(d, 'ntt.c')])
    r = subprocess.run([os.path.join(s, 'm')], capture_output=True, text=True, timeout=20)
    v = [int(x) for x in r.stdout.split()]
    k = n.bit_length() - 1
    for i in range(n):
        if i >= len(v) or v[i] != bitrev(i, k):
            return dict(program='shuffle_with_table with src/bitrev%d_table.c' % n, contents='a[i] = i', index=i, observed=v[i] if i < len(v) else 'stopped', expected=bitrev(i, k))
    return None
