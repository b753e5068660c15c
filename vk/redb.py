"""C14: contracts on red_bounds.c.

red(v) = 3*(v mod 4096) - floor(v/4096).  For the extremum functions the universally quantified input is an
arbitrary fixed Z in [a,b] (and an arbitrary fixed multiplier U in [low,high]); the postcondition for that
Z, U is the postcondition for all."""
import z3
from . import build, hoare, houdini
from .hoare import H, Arr, Cells, HPtr, Spec, State, fresh, lit
from .terms import Undecided

P62 = 1 << 62
Z, U = z3.Ints('Z U')


def RED(v):
    return 3 * (v % 4096) - v / 4096


def out(st, name):
    r = Cells(name, 8)
    st.mem[r] = {}
    return r


def rd(st, r):
    v = st.mem[r].get((0, 8))
    if v is None:
        raise Undecided(r.name + ' not written')
    return lit(v)


# ---------------------------------------------------------------- lemmas over the integers, proved on their own
p_, x_, y_, c_ = z3.Ints('p x y c')
LEMMAS = {
    'monotone': z3.ForAll([p_, x_, y_], z3.Implies(z3.And(p_ > 0, x_ <= y_), p_ * x_ <= p_ * y_)),
    'strict': z3.ForAll([p_, x_, y_], z3.Implies(z3.And(p_ > 0, x_ < y_), p_ * x_ + p_ <= p_ * y_)),
    'box': z3.ForAll([p_, x_, y_, c_], z3.Implies(z3.And(0 <= x_, x_ <= p_, -c_ <= y_, y_ <= c_), z3.And(x_ * y_ <= p_ * c_, x_ * y_ >= -(p_ * c_)))),
}


def mono(p, x, y):
    return z3.Implies(z3.And(p > 0, x <= y), p * x <= p * y)


def strict(p, x, y):
    return z3.Implies(z3.And(p > 0, x < y), p * x + p <= p * y)


def box(p, x, y, c):
    """0 <= x <= p and |y| <= c: |x*y| <= p*c"""
    return z3.Implies(z3.And(0 <= x, x <= p, -c <= y, y <= c), z3.And(x * y <= p * c, x * y >= -(p * c)))


def remlemma(w, t, i):
    """2^i divides w: the remainder of w*t modulo 4096 is a multiple of 2^i, so at most 4096 - 2^i."""
    return z3.And(w * t % (1 << i) == 0, w * t % 4096 <= 4096 - (1 << i))


def prove_lemmas():
    h = H(build.module('red_bounds.c'))
    a, b, c, d = z3.Ints('la lb lc ld')
    st = State()
    # y - x = e >= 0 (or >= 1); p*e >= 0 is the only nonlinear fact
    e = z3.Int('le')
    h.oblige(st, z3.Implies(z3.And(a > 0, e >= 0), a * e >= 0), 'lemma: product of non-negatives')
    h.oblige(st, z3.Implies(z3.And(a > 0, e >= 0), a * b <= a * (b + e)), 'lemma: monotonicity')
    h.oblige(st, z3.Implies(z3.And(a > 0, e >= 1), a * b + a <= a * (b + e)), 'lemma: strict monotonicity')
    # box: x = p - f, y = c - g = -c + k
    f, g, k = z3.Ints('lf lg lk')
    h.oblige(st, z3.Implies(z3.And(b >= 0, f >= 0, c >= 0, g >= 0), z3.And(b * g >= 0, f * c >= 0)), 'lemma: box (signs)')
    h.oblige(st, z3.Implies(z3.And(b * g >= 0, f * c >= 0), b * (c - g) <= (b + f) * c), 'lemma: box, upper')
    h.oblige(st, z3.Implies(z3.And(b * k >= 0, f * c >= 0), b * (-c + k) >= -((b + f) * c)), 'lemma: box, lower')
    h.lin = hoare.Linear()
    for i in range(13):
        h.oblige(st, z3.Implies(a == (1 << i) * c, remlemma((1 << i) * c, b, i)), 'lemma: remainders of multiples of 2^%d' % i)
    return h


# ---------------------------------------------------------------- single reduction
def prove_red(which):
    h = H(build.module('red_bounds.c'))
    a, b = z3.Ints('a b')
    st = State()
    B = (1 << 63) - 1
    st.path += [a <= b, a >= -B - 1, b <= B, Z >= a, Z <= b]
    m = out(st, 'm')
    for s, r in h.function(st, h.mod.funcs[which], [a, b, HPtr(m)]):
        r = lit(h.view(s, r, 64, True))
        mm = rd(s, m)
        h.oblige(s, z3.And(mm >= a, mm <= b), which + ': the reported input is in the range')
        h.oblige(s, r == RED(mm), which + ': the bound is attained at the reported input')
        h.oblige(s, RED(Z) <= r if which == 'max_red' else RED(Z) >= r, which + ': no input of the range is beyond the bound')
    return h


# ---------------------------------------------------------------- red(w*x)
def gcd_post(w, g):
    """g is the power of two 2^k, k <= 12, and divides w."""
    return z3.Or([z3.And(g == 1 << k, w % (1 << k) == 0) for k in range(13)])


def prove_gcd():
    h = H(build.module('red_bounds.c'), specs={'gcd4096': Spec({}, unroll=64)})
    w = z3.Int('w')
    st = State()
    st.path += [w != 0, w >= -P62, w <= P62]
    for s, r in h.function(st, h.mod.funcs['gcd4096'], [w]):
        h.oblige(s, gcd_post(w, lit(h.view(s, r, 64, True))), 'gcd4096: a power of two up to 4096 that divides w')
    return h


def gcd_contract(h, st, args):
    w = lit(h.view(st, args[0], 64, True))
    h.oblige(st, w != 0, 'gcd4096 is called with a non-zero number')
    g = fresh('gcd')
    st.path.append(z3.And(g >= 1, g <= 4096))
    h.mark(st, g, 64, True)
    st.ghost['gcd'] = g
    st.ghost['gcdof'] = w
    return [(st, g)]


QX, QE = z3.Ints('QX QE')


def prove_mul(which, sign):
    """sign: 1, -1 or 0, the sign of w."""
    return houdini.prove(lambda G: prove_mul1(which, sign, G), sign != 0)


def prove_mul1(which, sign, G=None):
    mx = which.startswith('max')
    mod = build.module('red_bounds.c')
    a, b, w = z3.Ints('a b w')
    st = State()
    st.path += [a <= b, a >= -P62, b <= P62, w >= -P62, w <= P62, Z >= a, Z <= b]
    W = w if sign > 0 else -w                      # |w|
    A, B, X = (a, b, Z) if sign >= 0 else (-b, -a, -Z)      # the range the code works on
    end = B if mx else A
    st.path += [w > 0 if sign > 0 else w < 0 if sign < 0 else w == 0]
    st.path += [W * A <= P62, W * A >= -P62, W * B <= P62, W * B >= -P62]
    # QX, QE: quotients of w*Z and of w*(end of the range)
    st.path += [4096 * QX <= W * X, W * X <= 4096 * QX + 4095, 4096 * QE <= W * end, W * end <= 4096 * QE + 4095]
    redX, redE = 3 * W * X - 12289 * QX, 3 * W * end - 12289 * QE

    def inv(v):
        x, xm, rm, pw = v.x, (v.x_max if mx else v.x_min), (v.r_max if mx else v.r_min), v.pw
        L = [('multiplier', z3.And(pw == W, pw > 0)), ('range', z3.And(v.a == A, v.b == B, A <= x, x <= B)),
             ('extremum position', z3.And(A <= xm, xm <= B)), ('extremum attained', rm == 3 * (W * xm) - 12289 * v.H.fdiv(v.st, W * xm, 4096))]
        if mx:
            L += [('end covered', rm >= redE), ('inputs below x covered', z3.Implies(X < x, redX <= rm)),
                  ('largest remainder', z3.And(v.h == 4096 - v.st.ghost['gcd'], v.g == 3 * v.h))]
        else:
            L += [('end covered', rm <= redE), ('inputs above x covered', z3.Implies(X > x, redX >= rm))]
        return L

    def lem(h, v):
        try:
            x = v.x
        except Undecided:
            return [mono(W, A, X), mono(W, X, B), mono(W, A, B)]
        cur = [x]
        hd = v.st.ghost.get(('head', which, 0))
        if hd is not None:
            hx = h.var(v.f, hd, 'x')
            cur = [hx, x, (x - 1) if mx else (x + 1)]
            if G:
                cur.append(hx + 1 if mx else hx - 1)
        L = [mono(W, A, X), mono(W, X, B), mono(W, A, B)]
        for t in cur:
            L += [mono(W, t, X), mono(W, X, t), mono(W, A, t), mono(W, t, B), mono(W, B, t), mono(W, t, A)]
        if 'gcd' in v.st.ghost:
            L.append(z3.Implies(z3.Or(v.st.ghost['gcdof'] == W, v.st.ghost['gcdof'] == -W), W * X - 4096 * QX <= 4096 - v.st.ghost['gcd']))
        return L
    sp = Spec({0: dict(inv=inv, var=(lambda v: B - v.x) if mx else (lambda v: v.x - A))}, lemmas=lem)

    def cands(v):
        xm, rm = (lambda: v.x_max if mx else v.x_min), (lambda: v.r_max if mx else v.r_min)
        q = lambda: v.H.fdiv(v.st, W * v.x, 4096)
        L = [('multiplier', lambda: z3.And(v.pw == W, v.pw > 0)), ('first end', lambda: v.a == A), ('last end', lambda: v.b == B), ('x from A', lambda: v.x >= A), ('x up to B', lambda: v.x <= B),
             ('x near A', lambda: W * v.x >= W * A - 4095), ('x near B', lambda: W * v.x <= W * B + 4095), ('extremum position', lambda: z3.And(A <= xm(), xm() <= B)),
             ('extremum attained', lambda: rm() == 3 * (W * xm()) - 12289 * v.H.fdiv(v.st, W * xm(), 4096))]
        if mx:
            L += [('end covered', lambda: rm() >= redE), ('inputs below x covered', lambda: z3.Implies(X < v.x, redX <= rm())), ('inputs up to x covered or in its class', lambda: z3.Implies(X <= v.x, z3.Or(redX <= rm(), QX == q()))),
                  ('class of the end', lambda: z3.Implies(v.x >= B, q() == QE)), ('h', lambda: v.h == 4096 - v.st.ghost['gcd']), ('g', lambda: v.g == 3 * (4096 - v.st.ghost['gcd']))]
            V = [lambda: B - v.x, lambda: B - v.x + 4096]
        else:
            L += [('end covered', lambda: rm() <= redE), ('inputs above x covered', lambda: z3.Implies(X > v.x, redX >= rm())), ('inputs from x covered or in its class', lambda: z3.Implies(X >= v.x, z3.Or(redX >= rm(), QX == q()))),
                  ('class of the end', lambda: z3.Implies(v.x <= A, q() == QE))]
            V = [lambda: v.x - A, lambda: v.x - A + 4096]
        return L, V
    h = H(mod, {'gcd4096': gcd_contract}, timeout=G.timeout * 3 if G else 60000, specs={which: G.spec(sp, cands) if G else sp})
    h.lin = hoare.Linear() if sign else None
    m = out(st, 'm')
    outs = h.function(st, mod.funcs[which], [a, b, w, HPtr(m)])
    for s, r in outs:
        r = lit(h.view(s, r, 64, True))
        mm = rd(s, m)
        M = mm if sign >= 0 else -mm
        L = lem(h, hoare.View(h, mod.funcs[which], s)) if sign else ()
        h.oblige(s, z3.And(mm >= a, mm <= b), which + ': the reported input is in the range', L)
        h.oblige(s, r == 3 * (w * mm) - 12289 * h.fdiv(s, w * mm, 4096), which + ': the bound is attained at the reported input', L)
        h.oblige(s, redX <= r if mx else redX >= r, which + ': no input of the range is beyond the bound', L)
    if not outs:
        h.obls.append((which + ' returns', False, 'refuted'))
    return h


# ---------------------------------------------------------------- contracts used by callers
def red_of(h, st, v):
    """red(v) with its defining quotient."""
    return 3 * v - 12289 * h.fdiv(st, v, 4096)


def outcell(h, st, ptr, v, where):
    h.mark(st, v, 64, True)
    h.store(st, ptr, 64, v, where)


def mul_contract(mx, points):
    """max_red_mul / min_red_mul; points: () -> inputs for which the universal part is stated."""
    nm = 'max_red_mul' if mx else 'min_red_mul'

    def handler(h, st, args):
        a, b, w = (lit(h.view(st, x, 64, True)) for x in args[:3])
        L = h.lemset(st)
        h.oblige(st, z3.And(a <= b, a >= -P62, b <= P62, w >= -P62, w <= P62), nm + ' precondition: a <= b, magnitudes', L)
        h.oblige(st, z3.And(w * a <= P62, w * a >= -P62, w * b <= P62, w * b >= -P62), nm + ' precondition: products fit', L)
        r, x = fresh('r'), fresh('x')
        st.path += [x >= a, x <= b, r == red_of(h, st, w * x), r >= -(1 << 63), r < (1 << 63)]
        h.mark(st, r, 64, True)
        for z in points(h, st):
            rz = red_of(h, st, w * z)
            st.path.append(z3.Implies(z3.And(a <= z, z <= b), rz <= r if mx else rz >= r))
        st.ghost['xs'] = st.ghost.get('xs', []) + [x]
        outcell(h, st, args[3], x, nm)
        return [(st, r)]
    return handler


def interval_contract(mx, points):
    nm = 'max_red_mul_interval' if mx else 'min_red_mul_interval'

    def handler(h, st, args):
        a, b, lo, hi = (lit(h.view(st, x, 64, True)) for x in args[:4])
        L = h.lemset(st)
        h.oblige(st, z3.And(a <= b, lo <= hi), nm + ' precondition: non-empty ranges', L)
        c = fresh('c')
        st.path += [z3.Or(c == b, c == -a), c >= b, c >= -a]
        h.oblige(st, z3.And([z3.And(x <= P62, x >= -P62) for x in (a, b, lo, hi, lo * c, hi * c)]), nm + ' precondition: products fit', L + [mulc(lo, c, a, b), mulc(hi, c, a, b)])
        r, x, w = fresh('r'), fresh('x'), fresh('w')
        st.path += [x >= a, x <= b, w >= lo, w <= hi, r == red_of(h, st, w * x), r >= -(1 << 63), r < (1 << 63)]
        h.mark(st, r, 64, True)
        st.ghost['xs'] = st.ghost.get('xs', []) + [x]
        st.ghost['ws'] = st.ghost.get('ws', []) + [w]
        for z, u in points(h, st):
            rz = red_of(h, st, u * z)
            st.path.append(z3.Implies(z3.And(a <= z, z <= b, lo <= u, u <= hi), rz <= r if mx else rz >= r))
        outcell(h, st, args[4], x, nm)
        outcell(h, st, args[5], w, nm)
        return [(st, r)]
    return handler


def mulc(u, c, a, b):
    return z3.And(z3.Implies(c == b, u * c == u * b), z3.Implies(c == -a, u * c == -(u * a)))


def prove_interval(which, case=0):
    """case: 1 low > 0, -1 high < 0, 0 low <= 0 <= high."""
    return houdini.prove(lambda G: prove_interval1(which, case, G))


def prove_interval1(which, case, G=None):
    mx = which.startswith('max')
    mod = build.module('red_bounds.c')
    a, b, lo, hi, C = z3.Ints('a b low high C')
    st = State()
    ob = (lambda x, y: x <= y) if mx else (lambda x, y: x >= y)
    st.path += [a <= b, lo <= hi, Z >= a, Z <= b, U >= lo, U <= hi, z3.Or(C == b, C == -a), C >= b, C >= -a]
    st.path += [z3.And(x <= P62, x >= -P62) for x in (a, b, lo, hi, lo * C, hi * C)]
    st.path.append(lo > 0 if case > 0 else hi < 0 if case < 0 else z3.And(lo <= 0, hi >= 0))
    f = mod.funcs[which]
    R, XM, WM = ('r_max', 'x_max', 'w_max') if mx else ('r_min', 'x_min', 'w_min')

    def inv(pos):
        def g(v):
            w, rm, xm, wm = v.w, getattr(v, R), getattr(v, XM), getattr(v, WM)
            ru = red_of(v.H, v.st, U * Z)
            L = [('attained', z3.And(xm >= a, xm <= b, wm >= lo, wm <= hi, rm == red_of(v.H, v.st, wm * xm))),
                 ('inputs', z3.And(v.a == a, v.b == b, v.low == lo, v.high == hi, v.c == C)),
                 ('zero covered', z3.Implies(U == 0, ob(ru, rm)))]
            if pos:
                L += [('range', z3.And(v.l == z3.If(lo <= 0, 0, lo - 1), v.h == z3.If(hi > 0, hi, 0), w >= v.l, w <= z3.If(v.h > v.l, v.h, v.l) if False else w <= z3.If(v.h >= v.l, v.h, v.l))),
                      ('negative multipliers covered', z3.Implies(U < 0, ob(ru, rm))), ('multipliers above w covered', z3.Implies(z3.And(U > 0, U > w), ob(ru, rm)))]
            else:
                L += [('range', z3.And(v.l == z3.If(lo < 0, lo, 0), v.h == z3.If(hi >= 0, 0, hi + 1), w >= v.l, w <= z3.If(v.h >= v.l, v.h, v.l))),
                      ('multipliers below w covered', z3.Implies(z3.And(U < 0, U < w), ob(ru, rm)))]
            return L
        return g

    def lemmas(h, st, w):
        L = [z3.Implies(U == 0, U * Z == 0)]
        L += [mulc(x, C, a, b) for x in (lo, hi)]
        for u in (lo, hi):                     # |u*a|, |u*b| <= |u|*C
            L += [box(u, u, t, C) for t in (a, b)] + [box(-u, -u, t, C) for t in (a, b)]
        if w is not None:
            L += [mulc(w, C, a, b), z3.Implies(U == w, U * Z == w * Z), box(-w, -U, Z, C), box(w, U, Z, C)]
            for t in (a, b, Z):
                L += [box(w, w, t, C), box(-w, -w, t, C)]
            # w*C is between low*C and high*C
            L += [z3.Implies(z3.And(0 <= w, w <= hi), z3.And(w * C >= 0, w * C <= hi * C)), z3.Implies(z3.And(lo <= w, w <= 0), z3.And(w * C <= 0, w * C >= lo * C))]
        return L

    def lem(h, v):
        ws = []
        for st_ in [v.st] + [s for kk, s in v.st.ghost.items() if isinstance(kk, tuple) and kk[0] == 'head' and kk[1] == which]:
            try:
                ws.append(h.var(f, st_, 'w'))
            except Undecided:
                pass
        L = lemmas(h, v.st, None)
        for w in ws:
            L += lemmas(h, v.st, w)[-20:]
        return L
    sp = Spec({0: dict(inv=inv(False), var=lambda v: v.h - v.w), 1: dict(inv=inv(True), var=lambda v: v.w - v.l)}, lemmas=lem)
    cs = {('max_red_mul' if mx else 'min_red_mul'): mul_contract(mx, lambda h, st: [Z])}

    def cands(v):
        rm, xm, wm = (lambda: getattr(v, R)), (lambda: getattr(v, XM)), (lambda: getattr(v, WM))
        ru = lambda: red_of(v.H, v.st, U * Z)
        L = [('attained', lambda: z3.And(xm() >= a, xm() <= b, wm() >= lo, wm() <= hi, rm() == red_of(v.H, v.st, wm() * xm())))]
        L += [('input ' + nm, lambda nm=nm, t=t: getattr(v, nm) == t) for nm, t in (('a', a), ('b', b), ('low', lo), ('high', hi), ('c', C))]
        L += [('l, negative', lambda: v.l == z3.If(lo < 0, lo, 0)), ('h, negative', lambda: v.h == z3.If(hi >= 0, 0, hi + 1)), ('l, positive', lambda: v.l == z3.If(lo <= 0, 0, lo - 1)), ('h, positive', lambda: v.h == z3.If(hi > 0, hi, 0))]
        L += [('range ' + nm, g) for nm, g in (('w>=l', lambda: v.w >= v.l), ('w<=h', lambda: v.w <= z3.If(v.h >= v.l, v.h, v.l)), ('w>=low', lambda: v.w >= lo), ('w<=high', lambda: v.w <= hi), ('w>=min(low,0)', lambda: v.w >= z3.If(lo < 0, lo, 0)),
                                               ('w<=max(high,0)', lambda: v.w <= z3.If(hi > 0, hi, 0)), ('w>=0', lambda: v.w >= 0), ('w<=0', lambda: v.w <= 0), ('w<=high+1', lambda: v.w <= hi + 1), ('w>=low-1', lambda: v.w >= lo - 1))]
        L += [('zero covered', lambda: z3.Implies(U == 0, ob(ru(), rm()))), ('negative multipliers covered', lambda: z3.Implies(U < 0, ob(ru(), rm()))), ('positive multipliers covered', lambda: z3.Implies(U > 0, ob(ru(), rm()))),
              ('positive multipliers above w covered', lambda: z3.Implies(z3.And(U > 0, U > v.w), ob(ru(), rm()))), ('negative multipliers below w covered', lambda: z3.Implies(z3.And(U < 0, U < v.w), ob(ru(), rm())))]
        return L, [lambda: v.h - v.w, lambda: v.w - v.l, lambda: z3.If(hi < 0, hi + 1, 0) - v.w, lambda: v.w - z3.If(lo > 0, lo - 1, 0), lambda: hi + 1 - v.w, lambda: v.w - lo + 1]
    h = H(mod, cs, timeout=G.timeout * 3 if G else 30000, specs={which: G.spec(sp, cands) if G else sp})
    h.lin = hoare.Linear()
    h.lemset = lambda s: list(lem(h, hoare.View(h, f, s)))
    m, mw = out(st, 'm'), out(st, 'mw')
    outs = h.function(st, f, [a, b, lo, hi, HPtr(m), HPtr(mw)])
    for s, r in outs:
        r = lit(h.view(s, r, 64, True))
        x, w = rd(s, m), rd(s, mw)
        L = h.lemset(s)
        h.oblige(s, z3.And(x >= a, x <= b, w >= lo, w <= hi), which + ': the reported input and multiplier are in their ranges', L)
        h.oblige(s, r == red_of(h, s, w * x), which + ': the bound is attained', L)
        h.oblige(s, ob(red_of(h, s, U * Z), r), which + ': no input and multiplier of the ranges are beyond the bound', L)
    if not outs:
        h.obls.append((which + ' returns', False, 'refuted'))
    return h


# ---------------------------------------------------------------- one butterfly
X, Y = z3.Ints('X Y')
P61 = 1 << 61


def prove_step(which):
    """ct_bound(_fixed), gs_bound(_fixed): |x|,|y| <= b and the multiplier in its range imply that both results
    of the butterfly are within the returned bound."""
    gs, fixed = which.startswith('gs'), which.endswith('fixed')
    mod = build.module('red_bounds.c')
    f = mod.funcs[which]
    b, lo, hi, w = z3.Ints('b low high w')
    st = State()
    st.path += [b >= 0, b <= P61, X >= -b, X <= b, Y >= -b, Y <= b]
    c = 2 * b if gs else b
    T = X - Y if gs else Y                 # what is multiplied
    us = [w] if fixed else [lo, hi]
    if fixed:
        st.path.append(U == w)
    else:
        st.path += [lo <= hi, U >= lo, U <= hi]
    st.path += [z3.And(u <= P61, u >= -P61, u * c <= P61, u * c >= -P61) for u in us]

    def lem(s):
        L = []
        for u in us + [U]:
            L += [z3.Implies(u == v, u * T == v * T) for v in us]
        for u in us:
            for v in (c, -c, T):
                L += [box(u, u, v, c), box(-u, -u, v, c)]
        for u in us + [U] + s.ghost.get('ws', []):
            for v in [T] + s.ghost.get('xs', []):
                L += bounded_product(u, v, us, c)
        return L
    pts = (lambda h, s: [T]) if fixed else (lambda h, s: [(T, U)])
    mk = mul_contract if fixed else interval_contract
    sfx = '' if fixed else '_interval'
    cs = {'max_red_mul' + sfx: mk(True, pts), 'min_red_mul' + sfx: mk(False, pts)}
    h = H(mod, cs, timeout=30000)
    h.lin = hoare.Linear()
    h.lemset = lem
    outs = h.function(st, f, [b, w] if fixed else [b, lo, hi])
    for s, r in outs:
        r = lit(h.view(s, r, 64, True))
        R = red_of(h, s, U * T)
        L = lem(s)
        if gs:
            h.oblige(s, z3.And(X + Y <= r, X + Y >= -r), which + ': the sum is within the bound', L)
            h.oblige(s, z3.And(R <= r, R >= -r), which + ': the multiplied difference is within the bound', L)
        else:
            h.oblige(s, z3.And(X + R <= r, X + R >= -r), which + ': the sum is within the bound', L)
            h.oblige(s, z3.And(X - R <= r, X - R >= -r), which + ': the difference is within the bound', L)
        if fixed:
            # growth, for multipliers of absolute value up to 6144
            g = growth(gs)(b)
            h.oblige(s, z3.Implies(z3.And(w >= -6144, w <= 6144), z3.And(r >= 0, 2 * r <= g)), which + ': growth of the bound', L + [box(6144, x, y, c) for x in (w, -w) for y in s.ghost.get('xs', []) + [c, -c]])
    if not outs:
        h.obls.append((which + ' returns', False, 'refuted'))
    return h


def growth(gs):
    """twice the largest bound after a step from bound b"""
    return (lambda b: 6 * b + 4 * 12289) if gs else (lambda b: 5 * b + 4 * 12289)


def bounded_product(u, v, us, c):
    """|v| <= c and u between the given multipliers: |u*v| is at most c times one of their absolute values."""
    L = []
    if len(us) == 1:
        return [z3.Implies(u == us[0], z3.And(box(us[0], u, v, c), box(-us[0], -u, v, c)))]
    lo, hi = us
    L += [box(hi, u, v, c), box(-lo, -u, v, c)]
    return L


CT, GS = z3.Function('CT', z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function('GS', z3.IntSort(), z3.IntSort(), z3.IntSort())
J = z3.Int('J')


def prove_stages(which, n):
    """ntt_ct_bounds, ntt_gs_bounds: bound[k] is at least the butterfly bound of every table entry that round k uses,
    starting from bound[k-1]."""
    gs = 'gs' in which
    F = GS if gs else CT
    mod = build.module('red_bounds.c')
    f = mod.funcs[which]
    lg = n.bit_length() - 1
    b0 = z3.Int('b0')
    st = State()
    st.path += [b0 >= 0, b0 <= 1 << 28]
    p = Arr('p', 2, z3.IntVal(n), signed=True, writable=False)
    P = z3.Array('P', z3.IntSort(), z3.IntSort())
    st.mem[p] = P
    bd = Arr('bound', 8, z3.IntVal(lg + 1), signed=True)
    st.mem[bd] = z3.Array('B0', z3.IntSort(), z3.IntSort())

    def step(h, s, args):
        b, w = (lit(h.view(s, x, 64, True)) for x in args)
        # the precondition of the table: entries of absolute value up to 6144
        s.path.append(z3.And(w >= -6144, w <= 6144))
        h.oblige(s, z3.And(b >= 0, b <= 1 << 47), 'butterfly bound: the precondition (bound up to 2^47, multiplier up to 6144)')
        r = fresh('step')
        s.path += [r == F(b, w), r >= 0, 2 * r <= growth(gs)(b)]
        h.mark(s, r, 64, True)
        return [(s, r)]
    cs = {('gs' if gs else 'ct') + '_bound_fixed': step}

    def inv(v):
        t, j = v.t, v.j
        return [('position', z3.And(j >= 1, z3.Or(j <= t, j == 1))), ('entries covered', z3.Implies(z3.And(J >= 0, J < j, J < t), F(v.b, P[t + J]) <= v.c)),
                ('growth', z3.And(v.c >= 0, 2 * v.c <= growth(gs)(v.b)))]
    h = H(mod, cs, timeout=20000, specs={which: Spec({1: dict(inv=inv, var=lambda v: v.t - v.j + 1, mod=())})})
    outs = h.function(st, f, [b0, n, HPtr(p), HPtr(bd)])
    for s, r in outs:
        r = lit(h.view(s, r, 64, True))
        B = s.mem[bd]
        h.oblige(s, B[0] == b0, which + ': bound[0] is the bound on the input')
        h.oblige(s, r == B[lg], which + ': the last bound is returned')
        for k in range(1, lg + 1):
            t = n >> k if gs else 1 << (k - 1)
            h.oblige(s, z3.Implies(z3.And(J >= 0, J < t), F(B[k - 1], P[t + J]) <= B[k]), which + ': bound[%d] covers every multiplier of round %d, n=%d' % (k, k, n))
    if not outs:
        h.obls.append((which + ' returns', False, 'refuted'))
    return h


class Links:
    def __init__(self, obls):
        self.obls = obls


def prove_link(name, n):
    """Every value of round k of the real transform is a butterfly of round k-1 with a multiplier the stage bound covers."""
    from . import dag
    k = dag.link(name, n)
    return Links([('butterfly structure of ' + name, True, None)] * k)
