"""C12: contracts on intervals.c.

The universally quantified concrete values are arbitrary fixed X in a and Y in b; the postcondition for those is
the postcondition for all.  The bounds functions of red_bounds.c are used through the contracts proved by C14."""
import z3
from . import build, hoare, redb as R
from .hoare import H, Cells, HPtr, State, fresh, lit
from .terms import Undecided

Q = 12289
P62 = 1 << 62
LO, HI = -(1 << 63), (1 << 63) - 1
X, Y, V, K = z3.Ints('X Y V K')
BOUNDS = ('max_red', 'min_red', 'max_red_mul', 'min_red_mul', 'max_red_mul_interval', 'min_red_mul_interval')


def c_malloc(h, st, args):
    size = args[0]
    if type(size) is not int:
        raise Undecided('allocation of symbolic size')
    bad = st.copy()
    bad.ghost['oom'] = True
    r = Cells('heap%d' % len(h.heap), size)
    h.heap.append(r)
    st.mem[r] = {}
    return [(st, HPtr(r)), (bad, hoare.NULLP)]


def c_calloc(h, st, args):
    if type(args[0]) is not int or type(args[1]) is not int:
        raise Undecided('allocation of symbolic size')
    out = c_malloc(h, st, [args[0] * args[1]])
    r = out[0][1].r
    st.mem[r] = {(o, 8): 0 for o in range(0, r.size, 8)}
    return out


def c_end(how):
    def f(h, st, args):
        h.ends.append((how, st, args))
        return []
    return f


def c_free(h, st, args):
    p = args[0]
    if isinstance(p, HPtr) and p.r is None:
        return [(st, None)]
    if not isinstance(p, HPtr) or p.o != 0:
        h.obls.append(('free of a pointer to the start of an object', False, 'refuted'))
        raise Undecided('free')
    if p.r in st.freed:
        h.obls.append(('no double free', False, 'refuted'))
        raise Undecided('free')
    st.freed.add(p.r)
    return [(st, None)]


def red_contract(mx, points):
    nm = 'max_red' if mx else 'min_red'

    def handler(h, st, args):
        a, b = (lit(h.view(st, x, 64, True)) for x in args[:2])
        h.oblige(st, a <= b, nm + ' precondition: non-empty range')
        r, x = fresh('r'), fresh('x')
        st.path += [x >= a, x <= b, r == R.red_of(h, st, x), r >= LO, r <= HI]
        h.mark(st, r, 64, True)
        for z in points(h, st):
            rz = R.red_of(h, st, z)
            st.path.append(z3.Implies(z3.And(a <= z, z <= b), rz <= r if mx else rz >= r))
        R.outcell(h, st, args[2], x, nm)
        return [(st, r)]
    return handler


def ival(st, name, lo=LO, hi=HI):
    r = Cells(name, 16, writable=False)
    mn, mx = z3.Ints('%s.min %s.max' % (name, name))
    st.mem[r] = {(0, 8): mn, (8, 8): mx}
    st.path += [mn >= lo, mn <= mx, mx <= hi]
    return r, mn, mx


def fits(*vs):
    return z3.And([z3.And(v >= LO, v <= HI) for v in vs])


OPS = ('point', 'interval', 'delete_interval', 'neg', 'add', 'sub', 'red', 'red_twice', 'red_mul', 'red_scale', 'normal', 'normal_inv3', 'shift', 'correct')


def cases():
    for o in OPS:
        yield o, False
        if o in ('add', 'sub', 'red_mul'):
            yield o, True


def prove(op, alias=False):
    mod = build.module('intervals.c')
    st = State()
    pts = lambda h, s: [X, R.red_of(h, s, X)]
    cs = {'malloc': c_malloc, 'calloc': c_calloc, 'free': c_free, 'exit': c_end('exit'), 'abort': c_end('abort'),
          'fprintf': lambda h, s, a: [(s, fresh('n'))], 'fflush': lambda h, s, a: [(s, fresh('n'))], 'printf': lambda h, s, a: [(s, fresh('n'))], 'perror': lambda h, s, a: [(s, None)],
          'fputs': lambda h, s, a: [(s, fresh('n'))], 'fputc': lambda h, s, a: [(s, fresh('n'))], 'fwrite': lambda h, s, a: [(s, fresh('n'))],
          'max_red': red_contract(True, pts), 'min_red': red_contract(False, pts)}
    k = z3.Int('k')
    cs['max_red_mul'], cs['min_red_mul'] = (R.mul_contract(m, lambda h, s: [X]) for m in (True, False))
    cs['max_red_mul_interval'], cs['min_red_mul_interval'] = (R.interval_contract(m, lambda h, s: [(X, Y), (Y, X)]) for m in (True, False))
    h = H(mod, cs, timeout=20000)
    h.lin = hoare.Linear()
    h.heap, h.ends = [], []
    f = mod.funcs[op]
    if op == 'point':
        st.path.append(fits(X))
        args, stop = [X], False
    elif op == 'interval':
        mn, mx = z3.Ints('min max')
        st.path += [fits(mn), fits(mx)]
        args, stop = [mn, mx], mn > mx
    else:
        a, amin, amax = ival(st, 'a', *((0, Q - 1) if op == 'shift' else (-Q, 2 * Q - 1) if op == 'correct' else ()))
        st.path += [X >= amin, X <= amax]
        args, stop = [HPtr(a)], False
        if op in ('add', 'sub', 'red_mul'):
            if alias:
                b, bmin, bmax = a, amin, amax
            else:
                b, bmin, bmax = ival(st, 'b')
            st.path += [Y >= bmin, Y <= bmax]
            args.append(HPtr(b))
    lem = lambda s: []
    tight = None
    if op == 'neg':
        stop, res, tight = z3.Not(fits(-amin, -amax)), -X, (-amax, -amin)
    elif op == 'add':
        tight = (amin + bmin, amax + bmax)
        stop, res = z3.Not(fits(*tight)), X + Y
    elif op == 'sub':
        tight = (amin - bmax, amax - bmin)
        stop, res = z3.Not(fits(*tight)), X - Y
    elif op == 'red':
        res = lambda s: R.red_of(h, s, X)
    elif op == 'red_twice':
        res = lambda s: R.red_of(h, s, R.red_of(h, s, X))
    elif op == 'red_scale':
        st.path += [k >= -P62, k <= P62, amin >= -P62, amax <= P62] + [z3.And(k * e <= P62, k * e >= -P62) for e in (amin, amax)]
        args = [k, HPtr(a)]
        res = lambda s: R.red_of(h, s, k * X)
    elif op == 'red_mul':
        A, B = z3.Ints('A B')       # largest absolute values
        for M, mn, mx in ((A, amin, amax), (B, bmin, bmax)):
            st.path += [M >= mx, M >= -mn, z3.Or(M == mx, M == -mn), M <= P62]
        st.path.append(A * B <= P62)
        if alias:
            st.path.append(A == B)
        res = lambda s: R.red_of(h, s, X * Y)

        def lem(s):
            L = []
            for u in (amin, amax):
                for c in (bmax, -bmin, B):
                    L += [z3.Implies(z3.And(u >= -A, u <= A, c <= B, c >= -B, A >= 0, B >= 0), z3.And(u * c <= A * B, u * c >= -(A * B)))]
            for u in (bmin, bmax):
                for c in (amax, -amin, A):
                    L += [z3.Implies(z3.And(u >= -B, u <= B, c <= A, c >= -A, A >= 0, B >= 0), z3.And(u * c <= A * B, u * c >= -(A * B)))]
            return L
    elif op == 'normal':
        res = lambda s: X - Q * h.fdiv(s, X, Q)
    elif op == 'normal_inv3':
        st.path += [V >= 0, V < Q, 3 * V == X + Q * K]
        res = V
    elif op == 'shift':
        res = z3.If(X <= (Q - 1) // 2, X, X - Q)
    elif op == 'correct':
        res = z3.If(X < 0, X + Q, z3.If(X >= Q, X - Q, X))
    elif op in ('point', 'interval'):
        res, tight = X, (X, X) if op == 'point' else (mn, mx)
        if op == 'interval':
            st.path += [z3.Implies(mn <= mx, z3.And(mn <= X, X <= mx))]
    h.lemset = lem
    outs = h.function(st, f, args)
    for how, s, a_ in h.ends:
        if s.ghost.get('oom'):
            h.oblige(s, z3.BoolVal(how in ('exit', 'abort')), op + ': stops when out of memory')
            continue
        h.oblige(s, lit_bool(stop), op + ': stops only when the exact range does not fit', lem(s))
        if how == 'exit':
            st_ = a_[0]
            h.obls.append((op + ': stops with an error status', type(st_) is int and st_ % 256 != 0, 'refuted'))
    if op == 'delete_interval':
        for s, _ in outs:
            ok = s.freed == {a}
            h.obls.append(('delete_interval frees its argument and nothing else', ok, None if ok else 'refuted'))
        return h
    for s, r in outs:
        if s.ghost.get('oom'):
            h.obls.append((op + ': does not return when out of memory', False, 'refuted'))
            continue
        if not isinstance(r, HPtr) or r.r is None or r.r not in h.heap or r.o != 0 or r.r in s.freed:
            h.obls.append((op + ': returns a newly allocated interval', False, 'refuted'))
            continue
        cell = s.mem[r.r]
        if (0, 8) not in cell or (8, 8) not in cell:
            h.obls.append((op + ': both ends of the result are set', False, 'refuted'))
            continue
        lo, hi = (lit(h.view(s, cell[o, 8], 64, True)) for o in (0, 8))
        h.obls.append((op + ': returns a newly allocated interval', True, None))
        # everything else that was allocated is released, and no argument is
        leak = [x for x in s.mem if x in h.heap and x is not r.r and x not in s.freed]
        h.obls.append((op + ': nothing is leaked, arguments stay alive', not leak and not [x for x in s.freed if x not in h.heap], 'refuted'))
        L = lem(s)
        h.oblige(s, z3.Not(lit_bool(stop)), op + ': stops when the exact range does not fit', L)
        g = res(s) if callable(res) else res
        h.oblige(s, lo <= g, op + ': the lower end is at most the concrete result', L)
        h.oblige(s, g <= hi, op + ': the upper end is at least the concrete result', L)
        h.oblige(s, lo <= hi, op + ': the result is not empty', L)
        if tight is not None:
            h.oblige(s, z3.And(lo == tight[0], hi == tight[1]), op + ': the exact range', L)
    if not outs:
        h.obls.append((op + ' returns', False, 'refuted'))
    return h


def lit_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def prove_lemmas():
    """|u| <= A, |c| <= B: |u*c| <= A*B"""
    h = H(build.module('intervals.c'), timeout=20000)
    st = State()
    p, q, r, t = z3.Ints('p q r t')
    h.oblige(st, z3.Implies(z3.And(p >= 0, q >= 0), p * q >= 0), 'lemma: product of non-negatives')
    # A = |u| + p, B = |c| + q: A*B - |u||c| = |u|q + p|c| + pq
    h.oblige(st, z3.Implies(z3.And(r * q >= 0, p * t >= 0, p * q >= 0), r * t <= (r + p) * (t + q)), 'lemma: box, for absolute values r and t')
    u, c, A, B = z3.Ints('u c A B')
    for su in (1, -1):
        for sc in (1, -1):
            h.lin = hoare.Linear()
            h.oblige(st, z3.Implies(z3.And(r == su * u, t == sc * c, su * sc * (u * c) == r * t, r * t >= 0, r * t <= A * B), z3.And(u * c <= A * B, u * c >= -(A * B))), 'lemma: box, signs %d %d' % (su, sc))
    return h
