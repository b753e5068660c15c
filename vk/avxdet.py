"""C16: avx2_supported.  Symbolic execution of the assembled routine over 64-bit vectors with z3; CPUID and
XGETBV return arbitrary words (uninterpreted functions of leaf and sub-leaf, of the XCR number)."""
import os, re
import z3
from . import build, x86
from .terms import Undecided

B32 = z3.BitVecSort(32)
CP = {r: z3.Function('cpuid_' + r, B32, B32, B32) for r in ('eax', 'ebx', 'ecx', 'edx')}
XG = {r: z3.Function('xgetbv_' + r, B32, B32) for r in ('eax', 'edx')}
bv = z3.BitVecVal
W = {'osxsave': z3.Extract(27, 27, CP['ecx'](bv(1, 32), z3.BitVec('any1', 32))),}
ONE, SEVEN, ZERO = bv(1, 32), bv(7, 32), bv(0, 32)
STATS = {'queries': 0}


def spec():
    # leaf 1 has no sub-leaves: its words do not depend on ecx
    e1 = CP['ecx'](ONE, ZERO)
    b7 = CP['ebx'](SEVEN, ZERO)
    x0 = XG['eax'](ZERO)
    return z3.And(z3.Extract(28, 27, e1) == 3, z3.Extract(5, 5, b7) == 1, z3.Extract(2, 1, x0) == 3)


def osxsave():
    return z3.Extract(27, 27, CP['ecx'](ONE, ZERO)) == 1


HI8 = {'ah': 'rax', 'bh': 'rbx', 'ch': 'rcx', 'dh': 'rdx'}


class S:
    def __init__(self):
        self.r = {}
        self.stack = {}
        self.fl = None
        self.path = []
        self.pc = 0
        self.n = 0

    def copy(self):
        s = S()
        s.r, s.stack, s.fl, s.path, s.pc, s.n = dict(self.r), dict(self.stack), self.fl, list(self.path), self.pc, self.n
        return s


class Det:
    def __init__(self):
        self.im = x86.image()
        self.obls = []
        self.models = []

    def oblige(self, st, goal, name):
        s = z3.Solver()
        s.set('timeout', 20000)
        for h in st.path:
            s.add(h)
        for h in self.ax():
            s.add(h)
        s.add(z3.Not(goal))
        STATS['queries'] += 1
        r = s.check()
        self.obls.append((name, r == z3.unsat, None if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'))
        if r == z3.sat:
            self.models.append((name, self.words(s.model())))
        return r == z3.unsat

    def words(self, m):
        ev = lambda t: m.eval(t, model_completion=True).as_long()
        return dict(ecx1=ev(CP['ecx'](ONE, ZERO)), ebx7=ev(CP['ebx'](SEVEN, ZERO)), xcr0=ev(XG['eax'](ZERO)), xcr0hi=ev(XG['edx'](ZERO)),
                    eax0=ev(CP['eax'](ZERO, ZERO)), ebx1=ev(CP['ebx'](ONE, ZERO)), edx1=ev(CP['edx'](ONE, ZERO)), eax1=ev(CP['eax'](ONE, ZERO)),
                    eax7=ev(CP['eax'](SEVEN, ZERO)), ecx7=ev(CP['ecx'](SEVEN, ZERO)), edx7=ev(CP['edx'](SEVEN, ZERO)))

    def ax(self):
        s = z3.BitVec('sub', 32)
        out = [z3.ForAll([s], z3.And([CP[r](ONE, s) == CP[r](ONE, ZERO), CP[r](ZERO, s) == CP[r](ZERO, ZERO)])) for r in CP]
        # a processor with OSXSAVE or AVX reports at least leaf 0Dh
        out.append(z3.Implies(z3.Extract(28, 27, CP['ecx'](ONE, ZERO)) != 0, z3.UGE(CP['eax'](ZERO, ZERO), 13)))
        return out

    # ---------------------------------------------------------------- operands
    def reg(self, st, name):
        if name not in st.r:
            st.r[name] = z3.BitVec('init_' + name, 64)
        return st.r[name]

    def get(self, st, o, w=None):
        if o[0] == 'i':
            return bv(o[1], w or 64)
        if o[0] == 'r':
            v = self.reg(st, o[1])
            return v if o[2] == 64 else z3.Extract(o[2] - 1, 0, v)
        if o[0] == '?' and o[1] in HI8:
            return z3.Extract(15, 8, self.reg(st, HI8[o[1]]))
        if o[0] == 'm':
            k = self.slot(st, o)
            n = (o[1] or (w or 64) // 8)
            return self.ld(st, k, n)
        raise Undecided('operand %r' % (o,))

    def ld(self, st, k, n):
        out = []
        for i in range(n):
            if k + i not in st.stack:
                raise Undecided('read of unwritten stack memory')
            out.append(st.stack[k + i])
        return z3.simplify(z3.Concat(*reversed(out))) if n > 1 else out[0]

    def slot(self, st, o):
        if o[2] is None or o[3] is not None or o[2] == 'rip':
            raise Undecided('memory operand %r' % (o,))
        v = z3.simplify(self.reg(st, o[2]) - z3.BitVec('init_rsp', 64))
        if not z3.is_bv_value(v):
            raise Undecided('memory operand %r' % (o,))
        k = v.as_signed_long() + o[5]
        return k

    def put(self, st, o, v):
        if o[0] == 'r':
            w = o[2]
            if w == 64:
                st.r[o[1]] = v
            elif w == 32:
                st.r[o[1]] = z3.ZeroExt(32, v)
            else:
                st.r[o[1]] = z3.Concat(z3.Extract(63, w, self.reg(st, o[1])), v)
            st.r[o[1]] = z3.simplify(st.r[o[1]])
            return
        if o[0] == '?' and o[1] in HI8:
            r = self.reg(st, HI8[o[1]])
            st.r[HI8[o[1]]] = z3.Concat(z3.Extract(63, 16, r), v, z3.Extract(7, 0, r))
            return
        if o[0] == 'm':
            self.stw(st, self.slot(st, o), v)
            return
        raise Undecided('operand %r' % (o,))

    def stw(self, st, k, v):
        n = v.size() // 8
        if k + n > 0:
            self.obls.append(('writes only below the return address', False, 'refuted'))
            raise Undecided('write above the frame')
        if k < self.rsp(st) - 128:
            raise Undecided('write below the red zone')
        for i in range(n):
            st.stack[k + i] = z3.Extract(8 * i + 7, 8 * i, v)

    def rsp(self, st):
        v = z3.simplify(self.reg(st, 'rsp') - z3.BitVec('init_rsp', 64))
        if not z3.is_bv_value(v):
            raise Undecided('stack pointer')
        return v.as_signed_long()

    def width(self, st, ops):
        for o in ops:
            if o[0] == 'r':
                return o[2]
            if o[0] == '?' and o[1] in HI8:
                return 8
        for o in ops:
            if o[0] == 'm' and o[1]:
                return 8 * o[1]
        raise Undecided('width')

    def cond(self, st, cc):
        if st.fl is None:
            raise Undecided('flags')
        zf, sf, cf, of = st.fl
        need = {'e': (zf,), 'ne': (zf,), 'z': (zf,), 'nz': (zf,), 's': (sf,), 'ns': (sf,), 'b': (cf,), 'ae': (cf,), 'c': (cf,), 'nc': (cf,),
                'be': (cf, zf), 'a': (cf, zf), 'l': (sf, of), 'ge': (sf, of), 'le': (zf, sf, of), 'g': (zf, sf, of)}
        if cc not in need or any(x is None for x in need[cc]):
            raise Undecided('condition ' + cc)
        f = {'e': lambda: zf, 'z': lambda: zf, 'ne': lambda: z3.Not(zf), 'nz': lambda: z3.Not(zf), 's': lambda: sf, 'ns': lambda: z3.Not(sf), 'b': lambda: cf, 'c': lambda: cf,
             'ae': lambda: z3.Not(cf), 'nc': lambda: z3.Not(cf), 'be': lambda: z3.Or(cf, zf), 'a': lambda: z3.Not(z3.Or(cf, zf)), 'l': lambda: sf != of, 'ge': lambda: sf == of,
             'le': lambda: z3.Or(zf, sf != of), 'g': lambda: z3.Not(z3.Or(zf, sf != of))}
        return f[cc]()

    def flags(self, st, v, cf=None, of=None):
        w = v.size()
        st.fl = (v == 0, z3.Extract(w - 1, w - 1, v) == 1, cf, of)

    # ---------------------------------------------------------------- run
    def run(self, name='avx2_supported'):
        if name not in self.im.syms:
            raise Undecided('no symbol ' + name)
        st = S()
        st.pc = self.im.syms[name][0]
        st.r['rsp'] = z3.BitVec('init_rsp', 64)
        for i in range(8):
            st.stack[i] = z3.Extract(8 * i + 7, 8 * i, z3.BitVec('retaddr', 64))
        work = [st]
        self.exits = 0
        while work:
            st = work.pop()
            self.go(st, work)
        return self

    def feasible(self, st):
        s = z3.Solver()
        s.set('timeout', 5000)
        for h in st.path + self.ax():
            s.add(h)
        return s.check() != z3.unsat

    def go(self, st, work):
        while True:
            st.n += 1
            if st.n > 4000:
                raise Undecided('too many steps')
            if st.pc not in self.im.code:
                raise Undecided('jump outside the code')
            op, ops, target, text = self.im.code[st.pc]
            nxt = self.im.next.get(st.pc)
            if op == 'ret':
                self.exit(st)
                return
            if op == 'jmp':
                st.pc = ops[0]
                continue
            if op == 'call':
                st.r['rsp'] = z3.simplify(self.reg(st, 'rsp') - 8)
                self.stw(st, self.rsp(st), bv(nxt, 64))
                st.pc = ops[0]
                continue
            if op[0] == 'j':
                c = self.cond(st, op[1:])
                s2 = st.copy()
                s2.path.append(c)
                s2.pc = ops[0]
                st.path.append(z3.Not(c))
                st.pc = nxt
                if self.feasible(s2):
                    work.append(s2)
                if not self.feasible(st):
                    return
                continue
            self.step(st, op, ops, target, text)
            st.pc = nxt

    def exit(self, st):
        k = self.rsp(st)
        ret = z3.simplify(self.ld(st, k, 8))
        if z3.is_bv_value(ret):
            st.r['rsp'] = z3.simplify(self.reg(st, 'rsp') + 8)
            st.pc = ret.as_long()
            w = []
            self.go(st, w)
            for x in w:
                self.go(x, w)
            return
        self.exits += 1
        self.oblige(st, z3.And(ret == z3.BitVec('retaddr', 64), z3.BoolVal(k == 0)), 'returns to the caller with the stack as found')
        al = z3.Extract(7, 0, self.reg(st, 'rax'))
        self.oblige(st, al == z3.If(spec(), bv(1, 8), bv(0, 8)), 'returns 1 exactly when OSXSAVE, AVX, AVX2, XMM and YMM state are all reported, else 0')
        for r in ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15'):
            self.oblige(st, self.reg(st, r) == z3.BitVec('init_' + r, 64), 'preserves ' + r)

    def step(self, st, op, ops, target, text):
        if op in ('nop', 'endbr64', 'cld'):
            return
        if op == 'cpuid':
            leaf, sub = z3.Extract(31, 0, self.reg(st, 'rax')), z3.Extract(31, 0, self.reg(st, 'rcx'))
            for r in ('eax', 'ebx', 'ecx', 'edx'):
                st.r['r' + r[1:]] = z3.ZeroExt(32, CP[r](leaf, sub))
            return
        if op == 'xgetbv':
            self.oblige(st, osxsave(), 'XGETBV is executed only when OSXSAVE is reported')
            self.oblige(st, z3.Extract(31, 0, self.reg(st, 'rcx')) == 0, 'XGETBV reads XCR0')
            i = z3.Extract(31, 0, self.reg(st, 'rcx'))
            st.r['rax'] = z3.ZeroExt(32, XG['eax'](i))
            st.r['rdx'] = z3.ZeroExt(32, XG['edx'](i))
            return
        if op[0] == 'v' or re.search(r'[xy]mm', text):
            self.oblige(st, spec(), 'no vector instruction before support is established: ' + text)
            raise Undecided('vector instruction ' + text)
        if op == 'push':
            v = self.get(st, ops[0], 64)
            st.r['rsp'] = z3.simplify(self.reg(st, 'rsp') - 8)
            self.stw(st, self.rsp(st), v)
            return
        if op == 'pop':
            v = self.ld(st, self.rsp(st), 8)
            st.r['rsp'] = z3.simplify(self.reg(st, 'rsp') + 8)
            self.put(st, ops[0], v)
            return
        if op in ('mov', 'movabs'):
            w = self.width(st, ops)
            self.put(st, ops[0], self.get(st, ops[1], w))
            return
        if op in ('movzx', 'movsx', 'movsxd'):
            w = self.width(st, ops[:1])
            v = self.get(st, ops[1], None if ops[1][0] != 'm' else 8 * ops[1][1])
            self.put(st, ops[0], (z3.ZeroExt if op == 'movzx' else z3.SignExt)(w - v.size(), v))
            return
        if op == 'lea':
            o = ops[1]
            if o[2] == 'rip' or o[2] is None:
                raise Undecided(text)
            v = self.reg(st, o[2]) + o[5]
            if o[3] is not None:
                v = v + self.reg(st, o[3]) * o[4]
            w = ops[0][2]
            self.put(st, ops[0], v if w == 64 else z3.Extract(w - 1, 0, v))
            return
        if op == 'xchg':
            w = self.width(st, ops)
            a, b = self.get(st, ops[0], w), self.get(st, ops[1], w)
            self.put(st, ops[0], b)
            self.put(st, ops[1], a)
            return
        if op in ('and', 'or', 'xor', 'test'):
            w = self.width(st, ops)
            a, b = self.get(st, ops[0], w), self.get(st, ops[1], w)
            v = a & b if op in ('and', 'test') else a | b if op == 'or' else a ^ b
            self.flags(st, v, z3.BoolVal(False), z3.BoolVal(False))
            if op != 'test':
                self.put(st, ops[0], z3.simplify(v))
            return
        if op in ('add', 'sub', 'cmp'):
            w = self.width(st, ops)
            a, b = self.get(st, ops[0], w), self.get(st, ops[1], w)
            if op == 'add':
                v = a + b
                self.flags(st, v, z3.ULT(v, a), z3.Extract(w - 1, w - 1, (a ^ v) & (b ^ v)) == 1)
            else:
                v = a - b
                self.flags(st, v, z3.ULT(a, b), z3.Extract(w - 1, w - 1, (a ^ b) & (a ^ v)) == 1)
            if op != 'cmp':
                self.put(st, ops[0], z3.simplify(v))
            return
        if op in ('sbb', 'adc'):
            w = self.width(st, ops)
            if st.fl is None or st.fl[2] is None:
                raise Undecided('carry')
            c = z3.If(st.fl[2], bv(1, w), bv(0, w))
            a, b = self.get(st, ops[0], w), self.get(st, ops[1], w)
            A, B, C = z3.ZeroExt(1, a), z3.ZeroExt(1, b), z3.ZeroExt(1, c)
            V = A - B - C if op == 'sbb' else A + B + C
            v = z3.Extract(w - 1, 0, V)
            self.flags(st, v, z3.Extract(w, w, V) == 1, None)
            self.put(st, ops[0], z3.simplify(v))
            return
        if op in ('inc', 'dec'):
            w = self.width(st, ops)
            v = self.get(st, ops[0], w) + (1 if op == 'inc' else -1)
            cf = st.fl[2] if st.fl else None
            self.flags(st, v, cf, None)
            self.put(st, ops[0], v)
            return
        if op in ('not', 'neg'):
            w = self.width(st, ops)
            a = self.get(st, ops[0], w)
            v = ~a if op == 'not' else -a
            if op == 'neg':
                self.flags(st, v, a != 0, None)
            self.put(st, ops[0], v)
            return
        if op in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror'):
            w = self.width(st, ops)
            a = self.get(st, ops[0], w)
            k = ops[1][1] if len(ops) > 1 and ops[1][0] == 'i' else 1 if len(ops) == 1 else None
            if k is None:
                raise Undecided(text)
            k &= 63 if w == 64 else 31
            if k == 0:
                return
            if op in ('rol', 'ror'):
                v = z3.RotateLeft(a, k) if op == 'rol' else z3.RotateRight(a, k)
                st.fl = (st.fl[0], st.fl[1], None, None) if st.fl else None
            else:
                v = a << k if op in ('shl', 'sal') else z3.LShR(a, k) if op == 'shr' else a >> k
                bit = w - k if op in ('shl', 'sal') else k - 1
                self.flags(st, v, z3.Extract(bit, bit, a) == 1 if 0 <= bit < w else None, None)
            self.put(st, ops[0], z3.simplify(v))
            return
        if op == 'bt':
            w = self.width(st, ops)
            a = self.get(st, ops[0], w)
            if ops[1][0] == 'i':
                k = ops[1][1] % w
                cf = z3.Extract(k, k, a) == 1
            else:
                k = self.get(st, ops[1], w) & (w - 1)
                cf = z3.Extract(0, 0, z3.LShR(a, k)) == 1
            st.fl = (st.fl[0] if st.fl else None, None, cf, None)
            return
        if op.startswith('set'):
            c = self.cond(st, op[3:])
            self.put(st, ops[0], z3.If(c, bv(1, 8), bv(0, 8)))
            return
        if op.startswith('cmov'):
            c = self.cond(st, op[4:])
            w = self.width(st, ops)
            self.put(st, ops[0], z3.If(c, self.get(st, ops[1], w), self.get(st, ops[0], w)))
            return
        raise Undecided('instruction ' + text)


def prove():
    d = Det().run()
    if not d.exits:
        d.obls.append(('the routine returns', False, 'refuted'))
    return d


def patches():
    """File offsets are not needed: addresses of CPUID and XGETBV in the loaded image."""
    im = x86.image()
    return [(a, i[0]) for a, i in sorted(im.code.items()) if i[0] in ('cpuid', 'xgetbv')]
