"""C15: sort() leaves the sorted permutation of its input.

Contracts on the four functions of sort.c.  The permutation part counts the occurrences of an
arbitrary fixed value V in the array (a ghost counter updated by every store); equality of the
count before and after, for arbitrary V, is equality of the multisets."""
import ctypes, random
import numpy as np
import z3
from . import build, hoare, houdini
from .hoare import H, Arr, HPtr, Spec, State, fresh, fresh_arr, lit
from .native import Guarded, note, search
from .terms import Undecided

V = z3.Int('V')
U64 = (1 << 64) - 1


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def onstore(h, st, r, old, i, v, new):
    o = z3.Select(old, i)
    st.ghost['cnt'] = st.ghost['cnt'] - b2i(o == V) + b2i(v == V)


def setup(n, name='a'):
    st = State()
    r = Arr(name, 8, n)
    st.mem[r] = z3.Array('A0', z3.IntSort(), z3.IntSort())
    st.ghost['cnt'] = z3.Int('C0')
    st.ghost['onstore'] = onstore
    st.path += [n >= 0, n < (1 << 32)]
    return st, r


k, p, q = z3.Ints('k p q')


def allk(lo, hi, body):
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), body(k)))


def sorted_(A, lo, hi):
    return z3.ForAll([p, q], z3.Implies(z3.And(lo <= p, p <= q, q < hi), A[p] <= A[q]))


def sort_contract(maxn=None, least=0, hints=None):
    """Contract of the sorting functions on a[base .. base+n-1]: sorted, a permutation of that part, the rest
    untouched.  That a permutation keeps every bound on the part is stated for the given terms."""
    def handler(h, st, args):
        ptr, n = args
        if not isinstance(ptr, HPtr) or ptr.r is None:
            raise Undecided('pointer')
        base = ptr.o[1] if isinstance(ptr.o, tuple) else z3.IntVal(ptr.o // 8)
        n = lit(h.view(st, n, 32, False))
        r = ptr.r
        h.oblige(st, z3.And(base >= 0, base + n <= r.n, n >= least), 'call sorts a part of the array')
        if maxn is not None:
            h.oblige(st, n < maxn, 'recursive call on a shorter array (termination)')
        A, B = st.mem[r], fresh_arr('S')
        inside = lambda body: allk(base, base + n, body)
        st.path += [sorted_(B, base, base + n), z3.ForAll([k], z3.Implies(z3.Or(k < base, k >= base + n), B[k] == A[k]))]
        st.ghost['parts'] = st.ghost.get('parts', ()) + ((base, n),)
        for x in (A[base - 1], A[base + n]) if hints else ():
            st.path += [z3.Implies(inside(lambda k: A[k] <= x), inside(lambda k: B[k] <= x)),
                        z3.Implies(inside(lambda k: A[k] >= x), inside(lambda k: B[k] >= x))]
        st.mem[r] = B
        return [(st, None)]
    return handler


def finish(h, name, outs, r, n, steps=None):
    if not outs:
        h.obls.append((name + ' returns', False, 'refuted'))
    for st, _ in outs:
        A = st.mem[r]
        got = []
        for nm, g in (steps(h, st, A) if steps else ()):
            h.oblige(st, g, '%s: %s' % (name, nm))
            got.append(g)
        h.oblige(st, sorted_(A, 0, n), name + ': the array is in non-decreasing order', only=got or None)
        h.oblige(st, st.ghost['cnt'] == z3.Int('C0'), name + ': every value occurs as often as before')


def isort_candidates(w, M, C, C0, n, old):
    A = M(w)
    L = [('i range', lambda: z3.And(w.i >= 1, z3.Or(w.i <= n, w.i == 1))), ('i below n', lambda: z3.And(w.i >= 1, w.i < n)), ('j in 0..i', lambda: z3.And(w.j >= 0, w.j <= w.i)), ('j in -1..i-1', lambda: z3.And(w.j >= -1, w.j < w.i)),
         ('permutation', lambda: C(w) == C0), ('x at i', lambda: A[w.i] == w.x), ('below', lambda: allk(0, w.j, lambda k: A[k] < w.x)),
         ('x above', lambda: allk(0, w.j, lambda k: A[k] <= w.x)), ('x below', lambda: allk(w.j, w.i, lambda k: w.x <= A[k])), ('hole at i', lambda: C(w) - b2i(A[w.i] == V) + b2i(w.x == V) == C0)]
    for nm, lo, hi in (('0..i', lambda: 0, lambda: w.i), ('0..j', lambda: 0, lambda: w.j), ('j..i', lambda: w.j, lambda: w.i), ('0..i incl', lambda: 0, lambda: w.i + 1), ('0..n', lambda: 0, lambda: n)):
        L.append(('sorted ' + nm, lambda lo=lo, hi=hi: sorted_(A, lo(), hi())))
    for c in (0, 1):                       # the element is lifted out, the hole is at j (or j + 1)
        e = lambda c=c: w.j + c
        L += [('hole at j+%d' % c, lambda e=e: C(w) - b2i(A[e()] == V) + b2i(w.x == V) == C0), ('sorted left of j+%d' % c, lambda e=e: sorted_(A, 0, e())), ('sorted right of j+%d' % c, lambda e=e: sorted_(A, e() + 1, w.i + 1)),
              ('x below, right of j+%d' % c, lambda e=e: allk(e() + 1, w.i + 1, lambda k: w.x <= A[k])),
              ('left below right of j+%d' % c, lambda e=e: z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < e(), e() < q, q <= w.i), A[p] <= A[q])))]
    return L, [lambda: n - w.i + 1, lambda: w.i - w.j, lambda: w.j, lambda: w.j + 1]


def qsort_candidates(w, M, C, C0, n, old):
    A = M(w)
    L = [('pivot', lambda: A[0] == w.x), ('permutation', lambda: C(w) == C0), ('j', lambda: A[w.j] <= w.x), ('i', lambda: z3.Implies(w.i < w.j, A[w.i] >= w.x)), ('j progress', lambda: w.j <= old(w, 'j')), ('i progress', lambda: w.i >= old(w, 'i'))]
    for nm, g in (('i>=0', lambda: w.i >= 0), ('i>=1', lambda: w.i >= 1), ('i<=j', lambda: w.i <= w.j), ('i<=j+1', lambda: w.i <= w.j + 1), ('i<j', lambda: w.i < w.j), ('j<n', lambda: w.j < n), ('j<=n', lambda: w.j <= n), ('j>=0', lambda: w.j >= 0),
                  ('j>=1', lambda: w.j >= 1), ('j+1<n', lambda: w.j + 1 < n), ('i=0', lambda: w.i == 0), ('i=1', lambda: w.i == 1)):
        L.append(('range ' + nm, g))
    for c in (0, 1):
        L += [('right %d' % c, lambda c=c: allk(w.j + c, n, lambda k: A[k] >= w.x)), ('right > %d' % c, lambda c=c: allk(w.j + c, n, lambda k: A[k] > w.x)),
              ('left %d' % c, lambda c=c: allk(1, w.i + c, lambda k: A[k] <= w.x)), ('left < %d' % c, lambda c=c: allk(1, w.i + c, lambda k: A[k] < w.x))]
    return L, [lambda: w.j - w.i + 1, lambda: w.j, lambda: w.j + 1, lambda: n - w.i + 1]


CANDIDATES = {'isort_int_array': isort_candidates, 'qsort_int_array': qsort_candidates}


def prove(which):
    return houdini.prove(lambda G: prove1(which, G), which in CANDIDATES)


def prove1(which, G=None):
    mod = build.module('sort.c')
    n = z3.Int('n')
    st, r = setup(n)
    steps = None
    C0 = z3.Int('C0')
    C = lambda w: w.st.ghost['cnt']
    M = lambda w: w.st.mem[r]
    old = lambda w, x: w.H.var(w.f, w.old, x)
    if which == 'isort_int_array':
        def inv0(w):
            i = w.i
            return [('range', z3.And(i >= 1, z3.Or(i <= n, i == 1))), ('prefix sorted', sorted_(M(w), 0, i)), ('permutation', C(w) == C0)]

        def inv1(w):
            i, j, x = w.i, w.j, w.x
            return [('range', z3.And(j >= 0, j <= i)), ('outer', z3.And(i >= 1, i < n)), ('below', allk(0, j, lambda k: M(w)[k] < x)), ('x', M(w)[i] == x)]

        def inv2(w):
            i, j, x = w.i, w.j, w.x
            A = M(w)
            return [('range', z3.And(j >= 0, j <= i, i >= 1, i < n)), ('left', sorted_(A, 0, j)), ('right', sorted_(A, j, i)),
                    ('x above', allk(0, j, lambda k: A[k] <= x)), ('x below', allk(j, i, lambda k: x <= A[k])),
                    ('permutation', C(w) - b2i(A[i] == V) + b2i(x == V) == C0)]
        sp = Spec({0: dict(inv=inv0, var=lambda w: n - w.i + 1), 1: dict(inv=inv1, var=lambda w: w.i - w.j, mod=()), 2: dict(inv=inv2, var=lambda w: w.i - w.j)}, unsigned=('x', 'y'))
        cs = {}
        args = [HPtr(r, 0), n]
    elif which == 'qsort_int_array':
        st.path.append(n > 1)

        def base(w):
            return [('pivot', M(w)[0] == w.x), ('permutation', C(w) == C0)]

        def invA(w):
            j = w.j
            return base(w) + [('range', z3.And(j >= 1, j <= n, w.i == 0)), ('right', allk(j, n, lambda k: M(w)[k] > w.x))]

        def invB(w):
            i, j = w.i, w.j
            return base(w) + [('range', z3.And(i >= 0, i <= j, j < n)), ('right', allk(j + 1, n, lambda k: M(w)[k] >= w.x)), ('j', M(w)[j] <= w.x),
                              ('left', allk(1, i + 1, lambda k: M(w)[k] < w.x))]

        def invW(w):
            i, j = w.i, w.j
            return base(w) + [('range', z3.And(i >= 1, i <= j + 1, j < n, j >= 0)), ('right', allk(j + 1, n, lambda k: M(w)[k] >= w.x)), ('j', M(w)[j] <= w.x),
                              ('left', allk(1, i, lambda k: M(w)[k] <= w.x)), ('i', z3.Implies(i < j, M(w)[i] >= w.x))]

        def invC(w):
            i, j = w.i, w.j
            return base(w) + [('range', z3.And(i >= 1, i < j, j < n)), ('right', allk(j, n, lambda k: M(w)[k] >= w.x)),
                              ('left', allk(1, i + 1, lambda k: M(w)[k] <= w.x)), ('progress', j <= old(w, 'j'))]

        def invD(w):
            i, j = w.i, w.j
            return base(w) + [('range', z3.And(i >= 1, i <= j, j + 1 < n)), ('right', allk(j + 1, n, lambda k: M(w)[k] >= w.x)), ('j', M(w)[j] <= w.x),
                              ('left', allk(1, i + 1, lambda k: M(w)[k] <= w.x)), ('progress', i >= old(w, 'i'))]
        sp = Spec({0: dict(inv=invA, var=lambda w: w.j, mod=()), 1: dict(inv=invB, var=lambda w: w.j - w.i + 1, mod=()), 2: dict(inv=invW, var=lambda w: w.j - w.i + 1),
                   3: dict(inv=invC, var=lambda w: w.j, mod=()), 4: dict(inv=invD, var=lambda w: w.j - w.i + 1, mod=())}, unsigned=('x', 'y'))
        def steps(h, st, A):
            zero = [b for b, m in st.ghost.get('parts', ()) if z3.is_int_value(z3.simplify(b))]
            rest = [b for b, m in st.ghost.get('parts', ()) if not z3.is_int_value(z3.simplify(b))]
            if len(zero) != 1 or len(rest) != 1:
                return []
            j = rest[0] - 1
            x = A[j]
            return [('pivot position', z3.And(j >= 0, j < n)), ('left part below the pivot', allk(0, j, lambda k: A[k] <= x)), ('right part above the pivot', allk(j + 1, n, lambda k: A[k] >= x)),
                    ('left part sorted', sorted_(A, 0, j)), ('right part sorted', sorted_(A, j + 1, n))]
        cs = {'sort_array': sort_contract(n, 0, True)}
        args = [HPtr(r, 0), n]
    elif which == 'sort_array':
        sp = Spec()
        cs = {'isort_int_array': sort_contract(), 'qsort_int_array': sort_contract(None, 2)}
        args = [HPtr(r, 0), n]
    else:
        sp = Spec()
        cs = {'sort_array': sort_contract()}
        args = [HPtr(r, 0), n]
    h = H(mod, cs, timeout=G.timeout if G else 20000, specs={which: G.spec(sp, lambda w: CANDIDATES[which](w, M, C, C0, n, old)) if G else sp})
    f = mod.funcs.get(which)
    if f is None:
        raise Undecided('no function ' + which)
    outs = h.function(st, f, args)
    finish(h, which, outs, r, n, steps)
    return h
