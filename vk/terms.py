"""Symbolic integers for the verification-condition generator.

A value is a Python int (concrete) or a Lin: an integer-linear combination of
hash-consed atoms.  Atoms are inputs, table entries, floor quotients, truncated
quotients, sign bits, products, conditionals, opaque bit operations and cut points.
Every Lin has an interval (sound enclosure of the mathematical value) and a
residue form modulo Q (exact congruence as a combination of inputs).
"""
import numpy as np

Q = 12289


class Undecided(Exception):
    """The engine cannot decide; never an alarm."""


class Refuted(Exception):
    """An obligation is definitely false."""


class ModSpace:
    """Residues are c * g^e with g of order N (g^(N/2) = -1); N = 0: plain residues."""

    def __init__(self, N=0, dim=0):
        self.N = N
        self.dim = dim

    def norm(self, c, e):
        c %= Q
        if c == 0:
            return 0, 0
        if self.N:
            e %= self.N
            h = self.N // 2
            if h and e >= h:
                e -= h
                c = Q - c
        return c, e


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'mf', 'mono', 'basis', 'depth', 'name', 'lin')

    def __repr__(self):
        return self.name or '%s%d' % (self.kind, self.id)


class Lin:
    __slots__ = ('t', 'c', 'iv', 'mf', 'key')

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.iv = None
        self.mf = None
        self.key = None

    def __repr__(self):
        return ' + '.join(['%d*%r' % (k, a) for a, k in self.t.items()] + [str(self.c)])


class MF:
    """Residue form: dense part over the input array (c,e arrays) + sparse dict."""
    __slots__ = ('c', 'e', 's', 'sp')

    def __init__(self, c=None, e=None, s=None, sp=None):
        self.c = c
        self.e = e
        self.s = s if s is not None else {}
        self.sp = sp           # which array the dense part ranges over


ONE = 'one'
Q16 = np.int16(Q)


def vmul(c, k):
    return (c.astype(np.int32) * k % Q).astype(np.int16)


class Ctx:
    """Hash-consing context, one per verified function instance."""

    def __init__(self, space=None):
        self.tab = {}
        self.n_atoms = 0
        self.space = space or ModSpace()
        self.rangecache = {}
        self.mul_clip = None       # precondition: products of two raw inputs lie in this range
        self.zero_mf = MF()
        self.prod = None           # list of products of two input combinations, when these form a space of their own

    # ---------------------------------------------------------------- atoms
    def _mk(self, key, kind, args, lo, hi, depth, name=None):
        a = self.tab.get(key)
        if a is None:
            a = Atom()
            a.id = self.n_atoms
            self.n_atoms += 1
            a.kind = kind
            a.args = args
            a.lo = lo
            a.hi = hi
            a.mf = None
            a.mono = None
            a.basis = None
            a.depth = depth
            a.name = name
            a.lin = None
            self.tab[key] = a
        return a

    def lin(self, a):
        if a.lin is None:
            a.lin = Lin({a: 1}, 0)
        return a.lin

    def var(self, name, lo, hi, basis=None, mono=None):
        a = self._mk(('var', name), 'var', None, lo, hi, 0, name)
        if basis is not None:
            a.basis = basis
        if mono is not None:
            a.mono = mono
        return self.lin(a)

    def key(self, L):
        if type(L) is int:
            return L
        if L.key is None:
            L.key = (tuple(sorted((a.id, k) for a, k in L.t.items())), L.c)
        return L.key

    def depth(self, L):
        if type(L) is int:
            return 0
        d = 0
        for a in L.t:
            if a.depth > d:
                d = a.depth
        return d

    # ---------------------------------------------------------------- linear ops
    def add(self, x, y):
        if type(x) is int:
            if type(y) is int:
                return x + y
            if x == 0:
                return y
            return Lin(y.t, y.c + x)
        if type(y) is int:
            if y == 0:
                return x
            return Lin(x.t, x.c + y)
        if len(x.t) < len(y.t):
            x, y = y, x
        t = dict(x.t)
        for a, k in y.t.items():
            v = t.get(a, 0) + k
            if v:
                t[a] = v
            else:
                del t[a]
        if not t:
            return x.c + y.c
        return Lin(t, x.c + y.c)

    def mulc(self, x, k):
        if type(x) is int:
            return x * k
        if k == 0:
            return 0
        if k == 1:
            return x
        return Lin({a: v * k for a, v in x.t.items()}, x.c * k)

    def neg(self, x):
        return self.mulc(x, -1)

    def sub(self, x, y):
        if type(y) is int:
            return self.add(x, -y)
        return self.add(x, self.mulc(y, -1))

    def mul(self, x, y):
        if type(x) is int:
            return self.mulc(y, x) if type(y) is not int else x * y
        if type(y) is int:
            return self.mulc(x, y)
        # pull out common content so that (2x)*y and 2*(x*y) coincide
        gx = self._content(x)
        gy = self._content(y)
        if gx != 1:
            x = self._divc(x, gx)
        if gy != 1:
            y = self._divc(y, gy)
        kx, ky = self.key(x), self.key(y)
        if kx > ky:
            x, y, kx, ky = y, x, ky, kx
        lx, hx = self.range(x)
        ly, hy = self.range(y)
        if kx == ky:
            m = max(abs(lx), abs(hx))
            lo = 0 if lx <= 0 <= hx else min(lx * lx, hx * hx)
            hi = m * m
        else:
            c = (lx * ly, lx * hy, hx * ly, hx * hy)
            lo, hi = min(c), max(c)
        key = ('mul', kx, ky)
        if self.mul_clip is not None and len(x.t) == 1 and len(y.t) == 1 and x.c == 0 and y.c == 0 and gx * gy == 1 \
                and next(iter(x.t)).kind == 'var' and next(iter(y.t)).kind == 'var':
            lo, hi = max(lo, self.mul_clip[0]), min(hi, self.mul_clip[1])
        a = self.tab.get(key)
        if a is None:
            a = self._mk(key, 'mul', (x, y), lo, hi, 1 + max(self.depth(x), self.depth(y)))
        return self.mulc(self.lin(a), gx * gy)

    def _content(self, x):
        from math import gcd
        g = abs(x.c)
        for k in x.t.values():
            g = gcd(g, k)
            if g == 1:
                break
        first = next(iter(sorted(x.t.items(), key=lambda p: p[0].id)))[1]
        return -g if first < 0 else g

    def _divc(self, x, g):
        return Lin({a: k // g for a, k in x.t.items()}, x.c // g)

    # ---------------------------------------------------------------- quotients
    def floordiv(self, x, d):
        """floor(x/d), d > 0 constant."""
        if type(x) is int:
            return x // d
        if d == 1:
            return x
        # pull out multiples of d (coefficients reduced into (-d/2, d/2])
        out = {}
        rest = {}
        for a, k in x.t.items():
            if k % d == 0:
                out[a] = k // d
            elif k >= d or k <= -d:
                o = (k + d // 2) // d
                out[a] = o
                rest[a] = k - o * d
            else:
                rest[a] = k
        oc, rc = divmod(x.c, d)
        if not rest:
            return Lin(out, oc) if out else oc
        from math import gcd
        g = d
        for k in rest.values():
            g = gcd(g, k)
        if g > 1:
            # floor((g*y + rc)/d) = floor((y + floor(rc/g))/(d/g))
            rest = {a: k // g for a, k in rest.items()}
            rc //= g
            d //= g
        r = Lin(rest, rc)
        outl = Lin(out, oc) if out else oc
        lo, hi = self.range(r)
        if lo // d == hi // d:
            return self.add(outl, lo // d)
        # floor((floor(y/b) + c)/d) = floor((y + b*c)/(b*d)) for a single quotient atom with coefficient 1
        if len(rest) == 1:
            (a, k), = rest.items()
            if k == 1 and a.kind == 'fdiv':
                y, b = a.args
                return self.add(outl, self.floordiv(self.add(y, b * rc), b * d))
        if -d <= lo and hi <= d - 1:
            return self.sub(outl, self.isneg(r))
        q = self._mk(('fdiv', self.key(r), d), 'fdiv', (r, d), lo // d, hi // d, 1 + self.depth(r))
        return self.add(outl, self.lin(q))

    def isneg(self, x):
        """1 if x < 0 else 0."""
        if type(x) is int:
            return 1 if x < 0 else 0
        lo, hi = self.range(x)
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
        g = abs(self._gcdcoef(x))
        if g > 1:
            # g*y + c < 0  <=>  y + floor(c/g) < 0
            x = Lin({a: k // g for a, k in x.t.items()}, x.c // g)
            lo, hi = self.range(x)
            if hi < 0:
                return 1
            if lo >= 0:
                return 0
        if len(x.t) == 1:
            (a, k), = x.t.items()
            if a.kind == 'neg':
                # k*b + c < 0 with b in {0,1}
                n0, n1 = x.c < 0, x.c + k < 0
                if n0 == n1:
                    return int(n0)
                b = self.lin(a)
                return b if n1 else self.sub(1, b)
        # canonical polarity: [x<0] = 1 - [-x-1<0]
        first = min(x.t, key=lambda a: a.id)
        if x.t[first] < 0:
            y = self.sub(self.neg(x), 1)
            return self.sub(1, self._neg_atom(y))
        return self._neg_atom(x)

    def _neg_atom(self, x):
        q = self._mk(('neg', self.key(x)), 'neg', (x,), 0, 1, 1 + self.depth(x))
        return self.lin(q)

    def _gcdcoef(self, x):
        from math import gcd
        g = 0
        for k in x.t.values():
            g = gcd(g, k)
        return g

    def iszero(self, x):
        """1 if x == 0 else 0."""
        if type(x) is int:
            return 1 if x == 0 else 0
        lo, hi = self.range(x)
        if lo > 0 or hi < 0:
            return 0
        if len(x.t) == 1:
            (a, k), = x.t.items()
            if a.lo == 0 and a.hi == 1:
                z0, z1 = x.c == 0, x.c + k == 0
                if z0 == z1:
                    return int(z0)
                b = self.lin(a)
                return b if z1 else self.sub(1, b)
        g = abs(self._gcdcoef(x))
        if x.c % g:
            return 0
        if g > 1:
            x = self._divc(x, g)
        if lo >= 0:
            return self.isneg(self.sub(x, 1))
        if hi <= 0:
            return self.isneg(self.sub(self.neg(x), 1))
        first = min(x.t, key=lambda a: a.id)
        if x.t[first] < 0:
            x = self.neg(x)
        q = self._mk(('eqz', self.key(x)), 'eqz', (x,), 0, 1, 1 + self.depth(x))
        return self.lin(q)

    def tdiv(self, x, d):
        """C division x / d with constant d > 0 (truncation)."""
        if d < 0:
            return self.neg(self.tdiv(x, -d))
        if type(x) is int:
            return x // d if x >= 0 else -((-x) // d)
        lo, hi = self.range(x)
        if lo >= 0:
            return self.floordiv(x, d)
        if hi <= 0:
            return self.neg(self.floordiv(self.neg(x), d))
        tl = -((-lo) // d)
        th = hi // d
        if tl == th:
            return tl
        q = self._mk(('tdiv', self.key(x), d), 'tdiv', (x, d), tl, th, 1 + self.depth(x))
        return self.lin(q)

    def trem(self, x, d):
        return self.sub(x, self.mulc(self.tdiv(x, abs(d)), abs(d)))

    # ---------------------------------------------------------------- machine views
    def signed(self, x, N):
        return self._view(x, N, -(1 << (N - 1)))

    def unsigned(self, x, N):
        return self._view(x, N, 0)

    def _view(self, x, N, base):
        M = 1 << N
        if type(x) is int:
            return (x - base) % M + base
        lo, hi = self.range(x)
        if base <= lo and hi < base + M:
            return x
        # coefficients only matter modulo 2^N
        t = {}
        for a, k in x.t.items():
            k2 = (k + M // 2) % M - M // 2
            if k2:
                t[a] = k2
        c = (x.c + M // 2) % M - M // 2
        if not t:
            return (c - base) % M + base
        y = Lin(t, c)
        lo, hi = self.range(y)
        kk = (lo - base) // M
        if kk == (hi - base) // M:
            return self.add(y, -kk * M)
        w = self.floordiv(self.add(y, -base), M)
        return self.sub(y, self.mulc(w, M))

    def andc(self, x, m, N):
        """x & m for a constant m (taken modulo 2^N); result congruent modulo 2^N."""
        m &= (1 << N) - 1
        if type(x) is int:
            return x & m
        lo, hi = self.range(x)
        if lo >= -1 and hi <= 0:
            return self.mulc(x, -m)
        if lo >= 0 and hi <= 1:
            return self.mulc(x, m & 1)
        if m == 0:
            return 0
        if m == (1 << N) - 1:
            return x
        r = 0
        i = 0
        while m >> i:
            if not (m >> i) & 1:
                i += 1
                continue
            j = i
            while (m >> j) & 1:
                j += 1
            # bits i..j-1
            part = self.floordiv(x, 1 << i)
            if j < N:
                part = self.sub(part, self.mulc(self.floordiv(x, 1 << j), 1 << (j - i)))
            r = self.add(r, self.mulc(part, 1 << i))
            i = j
        return r

    def bit2(self, op, x, y, N):
        """and/or/xor of two values; result congruent modulo 2^N."""
        if type(x) is int and type(y) is int:
            return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        if type(x) is int:
            x, y = y, x
        if type(y) is int:
            a = self.andc(x, y, N)
        else:
            if self.key(x) == self.key(y):
                a = x
            else:
                lx, hx = self.range(x)
                ly, hy = self.range(y)
                if lx >= 0 and hx <= 1 and ly >= 0 and hy <= 1:
                    a = self.mul(x, y)
                elif lx >= -1 and hx <= 0:   # mask & value
                    ly, hy = self.range(y)
                    a = self.ite(self.neg(x), y, 0)
                elif ly >= -1 and hy <= 0:
                    a = self.ite(self.neg(y), x, 0)
                else:
                    a = self._disjoint_and(x, y, N)
                    if a is None:
                        k1, k2 = sorted((self.key(x), self.key(y)))
                        lo, hi = -(1 << (N - 1)), (1 << N) - 1
                        if lx >= 0 and ly >= 0:
                            lo, hi = 0, min(hx, hy)
                        a = self.lin(self._mk(('and', k1, k2, N), 'and', (x, y, N), lo, hi,
                                              1 + max(self.depth(x), self.depth(y))))
        if op == 'and':
            return a
        s = self.add(x, y)
        if op == 'or':
            return self.sub(s, a)
        return self.sub(s, self.mulc(a, 2))

    def _disjoint_and(self, x, y, N):
        """0 when one operand is a multiple of 2^k and the other is in [0,2^k)."""
        for u, v in ((x, y), (y, x)):
            g = abs(self._gcdcoef(u))
            if u.c:
                from math import gcd
                g = gcd(g, abs(u.c))
            k = (g & -g)
            lo, hi = self.range(v)
            if lo >= 0 and hi < k:
                return 0
        return None

    def ite(self, b, x, y):
        """b ? x : y, with b in {0,1}."""
        if type(b) is int:
            return x if b else y
        d = self.sub(x, y)
        if type(d) is int:
            return self.add(y, self.mulc(b, d))
        lo, hi = self.range(b)
        if lo >= 1:
            return x
        if hi <= 0:
            return y
        if len(b.t) == 1 and b.c == 1:
            (a, k), = b.t.items()
            if k == -1 and a.lo == 0 and a.hi == 1:
                return self.ite(self.lin(a), y, x)
        rx = self.range_given(x, b, 1)
        ry = self.range_given(y, b, 0)
        if rx is None:
            return y
        if ry is None:
            return x
        # common part pulled out: ite(b, y+d, y) = y + ite(b, d, 0) is canonical
        rd = self.range_given(d, b, 1)
        lo, hi = min(rd[0], 0), max(rd[1], 0)
        key = ('ite', self.key(b), self.key(x), self.key(y))
        q = self._mk(key, 'ite', (b, x, y), min(rx[0], ry[0]), max(rx[1], ry[1]),
                     1 + max(self.depth(b), self.depth(x), self.depth(y)))
        return self.lin(q)

    # ---------------------------------------------------------------- comparisons
    def slt(self, x, y):
        return self.isneg(self.sub(x, y))

    # ---------------------------------------------------------------- ranges
    def direct(self, L):
        lo = hi = L.c
        for a, k in L.t.items():
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        return lo, hi

    def range(self, L, fuel=4):
        if type(L) is int:
            return L, L
        if L.iv is not None:
            return L.iv
        r = self._range(L, fuel)
        L.iv = r
        return r

    def _range(self, L, fuel):
        if type(L) is int:
            return L, L
        if L.iv is not None:
            return L.iv
        lo, hi = self.direct(L)
        if len(L.t) == 1 or fuel <= 0:
            return lo, hi
        top = None
        for a in L.t:
            if a.kind in ('fdiv', 'tdiv', 'neg', 'eqz', 'ite') and (top is None or a.depth > top.depth or
                                                             (a.depth == top.depth and a.id > top.id)):
                top = a
        if top is None:
            # a factored product: k*p + ... nothing to gain
            return lo, hi
        key = self.key(L)
        r = self.rangecache.get((key, fuel))
        if r is not None:
            return r
        cands = [a for a in L.t if a.kind in ('fdiv', 'tdiv', 'neg', 'ite')]
        if len(cands) > 3:
            cands = sorted(cands, key=lambda a: (-a.depth, -a.id))[:3]
        for a in cands:
            l2, h2 = self._range_split(L, a, fuel)
            lo = max(lo, l2)
            hi = min(hi, h2)
        self.rangecache[(key, fuel)] = (lo, hi)
        return lo, hi

    def _without(self, L, a):
        t = dict(L.t)
        k = t.pop(a)
        return (Lin(t, L.c) if t else L.c), k

    def _range_split(self, L, a, fuel):
        rest, k = self._without(L, a)
        kind = a.kind
        if kind == 'neg':
            b = self.lin(a)
            return self._cases([(self.add(rest, k), a, 1), (rest, a, 0)], fuel)
        if kind == 'ite':
            b, x, y = a.args
            lo = hi = None
            for v, z in ((1, x), (0, y)):
                r = self.range_given(self.add(rest, self.mulc(z, k)), b, v, fuel - 1)
                if r is None:
                    continue
                lo = r[0] if lo is None else min(lo, r[0])
                hi = r[1] if hi is None else max(hi, r[1])
            return lo, hi
        arg, d = a.args
        if a.hi - a.lo <= 3 and kind == 'fdiv':
            lo = hi = None
            al, ah = self.range(arg)
            for v in range(a.lo, a.hi + 1):
                r = self._range_with(self.add(rest, k * v), arg, max(al, v * d), min(ah, v * d + d - 1), fuel - 1)
                if r is None:
                    continue
                lo = r[0] if lo is None else min(lo, r[0])
                hi = r[1] if hi is None else max(hi, r[1])
            l1, h1 = lo, hi
        else:
            l1 = h1 = None
        # relaxation: q = (arg - r)/d, r in [rlo, rhi];  d*L = d*rest + k*arg - k*r
        if kind == 'fdiv':
            rlo, rhi = 0, d - 1
        else:
            al, ah = self.range(arg)
            rlo, rhi = max(-(d - 1), al), min(d - 1, ah)
        y = self.add(self.mulc(rest, d), self.mulc(arg, k))
        lo, hi = self._range(y, fuel - 1) if type(y) is not int else (y, y)
        if k > 0:
            lo -= k * rhi
            hi -= k * rlo
        else:
            lo -= k * rlo
            hi -= k * rhi
        lo, hi = -((-lo) // d), hi // d
        if l1 is not None:
            lo = max(lo, l1)
            hi = min(hi, h1)
        return lo, hi

    def _cases(self, cases, fuel):
        lo = hi = None
        for F, atom, v in cases:
            r = self.range_given(F, self.lin(atom), v, fuel - 1)
            if r is None:
                continue
            lo = r[0] if lo is None else min(lo, r[0])
            hi = r[1] if hi is None else max(hi, r[1])
        if lo is None:
            raise Undecided('empty case split')
        return lo, hi

    def range_given(self, F, b, v, fuel=3):
        """Range of F under b == v; None if the case is impossible."""
        if type(b) is int:
            return self.range(F) if b == v else None
        if len(b.t) == 1:
            (a, k), = b.t.items()
            if k == -1 and b.c == 1:
                return self.range_given(F, self.lin(a), 1 - v, fuel)
            if k == 1 and b.c == 0 and a.kind == 'neg':
                arg = a.args[0]
                al, ah = self.range(arg)
                if v:
                    ah = min(ah, -1)
                else:
                    al = max(al, 0)
                if al > ah:
                    return None
                return self._range_with(F, arg, al, ah, fuel)
            if k == 1 and b.c == 0 and a.kind == 'eqz' and v == 1:
                return self._range_with(F, a.args[0], 0, 0, fuel)
            if k == 1 and b.c == 0 and a.kind == 'mul' and v == 1:
                r = None
                for z in a.args:
                    r2 = self.range_given(F, z, 1, fuel)
                    if r2 is None:
                        return None
                    r = r2 if r is None else (max(r[0], r2[0]), min(r[1], r2[1]))
                if r[0] > r[1]:
                    return None
                return r
        return self.range(F) if type(F) is not int else (F, F)

    def _range_with(self, F, arg, al, ah, fuel):
        """Range of F given al <= arg <= ah."""
        if al > ah:
            return None
        if type(F) is int:
            return F, F
        lo, hi = self._range(F, min(fuel, 2)) if fuel > 0 else self.direct(F)
        seen = set()
        for x, kx in arg.t.items():
            kf = F.t.get(x)
            if kf is None or kf % kx:
                continue
            al_ = kf // kx
            if al_ in seen:
                continue
            seen.add(al_)
            R = self.sub(F, self.mulc(arg, al_))
            if type(R) is int:
                rl = rh = R
            else:
                rl, rh = self._range(R, fuel - 1) if fuel > 0 else self.direct(R)
            if al_ > 0:
                l2, h2 = rl + al_ * al, rh + al_ * ah
            else:
                l2, h2 = rl + al_ * ah, rh + al_ * al
            lo = max(lo, l2)
            hi = min(hi, h2)
        # nested sign bits decided by the assumption
        if fuel > 0:
            for a in list(F.t):
                if a.kind == 'neg':
                    r = self._range_with(a.args[0], arg, al, ah, 0)
                    if r is None:
                        return None
                    if r[1] < 0 or r[0] >= 0:
                        rest, k = self._without(F, a)
                        r2 = self._range_with(self.add(rest, k if r[1] < 0 else 0), arg, al, ah, fuel - 1)
                        if r2 is None:
                            return None
                        lo = max(lo, r2[0])
                        hi = min(hi, r2[1])
        if lo > hi:
            return None
        return lo, hi

    # ---------------------------------------------------------------- residue forms
    def mf(self, L):
        """Residue form of L, or of an int."""
        if type(L) is int:
            return MF(s={ONE: (L % Q, 0)} if L % Q else {})
        if L.mf is None:
            L.mf = self._mf_lin(L)
        return L.mf

    def _mf_lin(self, L):
        acc_c = acc_e = sp = None
        s = {}
        if L.c % Q:
            s[ONE] = (L.c % Q, 0)
        for a, k in L.t.items():
            k %= Q
            if k == 0:
                continue
            m = self.mf_atom(a)
            if m.c is not None:
                c = m.c if k == 1 else vmul(m.c, k)
                if acc_c is None:
                    acc_c, acc_e, sp = c, m.e, m.sp
                else:
                    if sp != m.sp:
                        raise Undecided('combination of different arrays')
                    acc_c, acc_e = self._addvec(acc_c, acc_e, c, m.e)
            for b, (c, e) in m.s.items():
                self._addsp(s, b, c * k % Q, e)
        if acc_c is not None and not acc_c.any():
            acc_c = acc_e = None
        return MF(acc_c, acc_e, s, sp)

    def _addsp(self, s, b, c, e):
        if c == 0:
            return
        o = s.get(b)
        if o is None:
            s[b] = (c, e)
            return
        if o[1] == e:
            c2 = (o[0] + c) % Q
            if c2:
                s[b] = (c2, e)
            else:
                del s[b]
        else:
            # distinct monomials of the same basis element: keep as separate keys
            kb = (b, e)
            o = s.get(kb)
            c2 = ((o[0] if o else 0) + c) % Q
            if c2:
                s[kb] = (c2, e)
            elif o:
                del s[kb]

    def _addvec(self, c1, e1, c2, e2):
        if self.space.N:
            both = (c1 != 0) & (c2 != 0)
            if both.any():
                if (e1[both] != e2[both]).any():
                    raise Undecided('non-monomial residue form')
            e = np.where(c1 != 0, e1, e2)
        else:
            e = e1
        c = c1 + c2
        c = np.where(c >= Q, c - Q16, c)
        if self.space.N:
            e = np.where(c != 0, e, np.int16(0))
        return c, e

    def mf_atom(self, a):
        if a.mf is not None:
            return a.mf
        if a.mono is not None:
            c, e = self.space.norm(*a.mono)
            m = MF(s={ONE: (c, e)} if c else {})
        elif a.basis is not None:
            c = np.zeros(self.space.dim, dtype=np.int16)
            sp = None
            b = a.basis
            if isinstance(b, tuple):
                sp, b = b
            c[b] = 1
            e = np.zeros(self.space.dim, dtype=np.int16)
            m = MF(c, e, None, sp)
        elif a.kind == 'mul':
            x, y = a.args
            mx, my = self.mf(x), self.mf(y)
            m = None
            for p, q in ((mx, my), (my, mx)):
                if p.c is None and set(p.s) <= {ONE}:
                    if not p.s:
                        m = MF()
                    else:
                        c, e = p.s[ONE]
                        m = self.mf_scale(q, c, e)
                    break
            if m is None and self.prod is not None and mx.c is not None and my.c is not None and not mx.s and not my.s \
                    and mx.sp != 'prod' and my.sp != 'prod':
                if len(self.prod) >= self.space.dim:
                    raise Undecided('more products than coefficients')
                c = np.zeros(self.space.dim, dtype=np.int16)
                c[len(self.prod)] = 1
                self.prod.append((a, mx, my))
                m = MF(c, np.zeros(self.space.dim, dtype=np.int16), None, 'prod')
            if m is None:
                m = MF(s={a: (1, 0)})
        elif a.kind == 'ite':
            b, x, y = a.args
            mx, my = self.mf(x), self.mf(y)
            if self.mf_eq(mx, my):
                m = mx
            else:
                m = MF(s={a: (1, 0)})
        else:
            m = MF(s={a: (1, 0)})
        a.mf = m
        return m

    def mf_scale(self, m, c, e):
        if c % Q == 0:
            return MF()
        cc = ee = None
        if m.c is not None:
            cc = vmul(m.c, c % Q)
            ee = m.e
            if self.space.N and e:
                h = self.space.N // 2
                ee = m.e + np.int16(e % h)
                flip = ee >= h
                if (e // h) & 1:
                    sg = ~flip
                else:
                    sg = flip
                ee = np.where(flip, ee - np.int16(h), ee)
                nz = cc != 0
                cc = np.where(sg & nz, Q16 - cc, cc)
                ee = np.where(nz, ee, np.int16(0))
        s = {}
        for b, (c1, e1) in m.s.items():
            c2, e2 = self.space.norm(c1 * c, e1 + e)
            bb = b[0] if isinstance(b, tuple) and len(b) == 2 else b
            self._addsp(s, bb, c2, e2)
        return MF(cc, ee, s, m.sp)

    def mf_eq(self, x, y):
        if x.s != y.s:
            return False
        if x.c is None and y.c is None:
            return True
        if x.c is None or y.c is None:
            return False
        return x.sp == y.sp and bool((x.c == y.c).all() and (x.e == y.e).all())

    def mf_clean(self, m):
        """No quotient symbols left: only inputs, constants."""
        return all(b == ONE or (isinstance(b, Atom) and b.kind in ('var', 'mul')) for b in m.s)

    # ---------------------------------------------------------------- cut points
    def cut(self, L, maxterms=1):
        """Replace a residue-clean value by one atom with the same interval and residue form."""
        if type(L) is int or len(L.t) <= maxterms:
            return L
        try:
            m = self.mf(L)
        except Undecided:
            return L
        if not self.mf_clean(m):
            return L
        lo, hi = self.range(L)
        if lo == hi:
            return lo
        a = self._mk(('cut', self.key(L)), 'cut', (L,), lo, hi, 0)
        if a.mf is None:
            a.mf = m
        return self.lin(a)

    # ---------------------------------------------------------------- evaluation (conformance, replay)
    def eval(self, L, env, memo=None):
        if type(L) is int:
            return L
        if memo is None:
            memo = {}
        r = L.c
        for a, k in L.t.items():
            r += k * self.eval_atom(a, env, memo)
        return r

    def eval_atom(self, a, env, memo):
        v = memo.get(a)
        if v is not None:
            return v
        k = a.kind
        if k == 'var':
            v = env[a.name]
        elif k == 'mul':
            v = self.eval(a.args[0], env, memo) * self.eval(a.args[1], env, memo)
        elif k == 'fdiv':
            v = self.eval(a.args[0], env, memo) // a.args[1]
        elif k == 'tdiv':
            x, d = self.eval(a.args[0], env, memo), a.args[1]
            v = x // d if x >= 0 else -((-x) // d)
        elif k == 'neg':
            v = int(self.eval(a.args[0], env, memo) < 0)
        elif k == 'eqz':
            v = int(self.eval(a.args[0], env, memo) == 0)
        elif k == 'ite':
            v = self.eval(a.args[1] if self.eval(a.args[0], env, memo) else a.args[2], env, memo)
        elif k == 'cut':
            v = self.eval(a.args[0], env, memo)
        elif k == 'and':
            x, y, N = a.args
            v = (self.eval(x, env, memo) & self.eval(y, env, memo)) & ((1 << N) - 1)
        else:
            raise Undecided('eval ' + k)
        memo[a] = v
        return v

    def eval_np(self, L, env, memo=None):
        """Evaluation over numpy int64 arrays (values must fit in 63 bits)."""
        if type(L) is int:
            return L
        if memo is None:
            memo = {}
        r = L.c
        for a, k in L.t.items():
            v = memo.get(a)
            if v is None:
                v = self._np_atom(a, env, memo)
                memo[a] = v
            r = r + k * v
        return r

    def _np_atom(self, a, env, memo):
        k = a.kind
        E = lambda x: self.eval_np(x, env, memo)
        if k == 'var':
            return env[a.name]
        if k == 'mul':
            return E(a.args[0]) * E(a.args[1])
        if k == 'fdiv':
            d = a.args[1]
            x = E(a.args[0])
            return x >> (d.bit_length() - 1) if d & (d - 1) == 0 else x // d
        if k == 'tdiv':
            x, d = E(a.args[0]), a.args[1]
            return np.where(x >= 0, x // d, -((-x) // d))
        if k == 'neg':
            return (E(a.args[0]) < 0).astype(np.int64)
        if k == 'eqz':
            return (E(a.args[0]) == 0).astype(np.int64)
        if k == 'ite':
            return np.where(E(a.args[0]) != 0, E(a.args[1]), E(a.args[2]))
        if k == 'cut':
            return E(a.args[0])
        if k == 'and':
            return E(a.args[0]) & E(a.args[1]) & ((1 << a.args[2]) - 1)
        raise Undecided('eval ' + k)
