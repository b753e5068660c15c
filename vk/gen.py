"""C10/C11: the table generators, executed symbolically from main() to the text of the files they write.

For each accepted size the root psi is symbolic: a residue is known as c * psi^e with psi^n = -1, and a reduced
value of that class is one variable in [0, Q-1].  The C library is a set of contracts (atol, fopen, fprintf, ...)."""
import re
from .terms import Ctx, Lin, Q, Undecided, Refuted
from .irexec import Exec, Obl, Region, Ptr, NULL
from . import build

FLAGS = ('-UNDEBUG',)


class Stop(Exception):
    """The program ends: exit status."""


def module(src):
    return build.module(src, extra=FLAGS)


class Gen(Exec):
    def __init__(self, mod, n=None, contracts=None):
        super().__init__(mod, Ctx(), Obl(), contracts or {})
        self.N = 2 * n if n else None
        self.res, self.memo = {}, {}
        self.files, self.errout, self.vals, self.open = [], [], [], {}
        self.args = []
        self.externs = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('c__')}
        self.externs = {k: (lambda ex, a, h=h: h(a)) for k, h in self.externs.items()}
        for a in ('strtol', 'strtoll', 'strtoul', 'strtoull'):
            self.externs['__isoc99_' + a] = self.externs['__isoc23_' + a] = self.externs[a] = lambda ex, x: self.conv(x)
        self.std = {k: Region(k, 8, [Ptr(Region('FILE ' + k, 8, [0]), 0)]) for k in ('stderr', 'stdout', 'stdin')}

    # -------------------------------------------------------- residues
    def fresh(self, c, e):
        """The value in [0,Q-1] congruent to c * psi^e."""
        c, e = self.norm(c, e)
        if c == 0 or e == 0:
            return c
        k = (c, e)
        if k not in self.memo:
            # psi has order exactly N: c * psi^e is not zero, and for c = 1, -1 not one of 1, -1
            lo, hi = (0, Q - 1) if not self.N else (2, Q - 2) if c in (1, Q - 1) else (1, Q - 1)
            v = self.ctx.var('r%d_%d' % k, lo, hi)
            (a, _), = v.t.items()
            self.res[a] = k
            self.memo[k] = v
        return self.memo[k]

    def norm(self, c, e):
        c %= Q
        if self.N:
            e %= self.N
            if 2 * e >= self.N:
                c, e = (Q - c) % Q, e - self.N // 2
        return (c, e) if c else (0, 0)

    def residue(self, v):
        if type(v) is int:
            return v % Q, 0
        acc = {}
        if v.c % Q:
            acc[0] = v.c % Q
        for a, k in v.t.items():
            if k % Q == 0:
                continue
            c, e = self.atom(a)
            acc[e] = (acc.get(e, 0) + c * k) % Q
        acc = {e: c for e, c in acc.items() if c}
        if not acc:
            return 0, 0
        if len(acc) > 1:
            raise Undecided('sum of different powers')
        (e, c), = acc.items()
        return self.norm(c, e)

    def atom(self, a):
        r = self.res.get(a)
        if r is not None:
            return r
        if a.kind == 'mul':
            c, e = 1, 0
            for x in a.args:
                c2, e2 = self.residue(x)
                c, e = c * c2 % Q, e + e2
            return self.norm(c, e)
        if a.kind == 'cut':
            return self.residue(a.args[0])
        if a.kind == 'ite':
            x, y = self.residue(a.args[1]), self.residue(a.args[2])
            if x == y:
                return x
        if a.kind == 'neg' or a.kind == 'eqz':
            # 0/1 valued: only a multiple of Q of it keeps the residue known
            raise Undecided('residue of a condition')
        raise Undecided('residue of ' + a.kind)

    def step(self, f, env, ins, op):
        if op in ('urem', 'srem'):
            x, y = self.val(f, env, ins.a[0]), self.val(f, env, ins.a[1])
            if y == Q and isinstance(x, Lin):
                x = self.ctx.unsigned(x, ins.ty) if op == 'urem' else self.ctx.signed(x, ins.ty)
                if isinstance(x, Lin):
                    lo, hi = self.ctx.range(x)
                    try:
                        if lo >= 0:
                            v = self.fresh(*self.residue(x))
                            self.obl.ok('overflow')
                            env[f.slots[ins.res]] = v
                            return
                    except Undecided:
                        pass
        super().step(f, env, ins, op)

    def icmp(self, pred, x, y, ty):
        if pred in ('eq', 'ne') and (isinstance(x, Lin) or isinstance(y, Lin)) and not isinstance(x, Ptr) and not isinstance(y, Ptr):
            try:
                r = self.differ(x, y)
            except Undecided:
                r = None
            if r is not None:
                return int(r == (pred == 'ne'))
        return super().icmp(pred, x, y, ty)

    def differ(self, x, y):
        """True: certainly different, False: certainly equal, None: not known."""
        (c, e), (d, g) = self.residue(x), self.residue(y)
        k = self.norm(c * pow(d, -1, Q), e - g) if c and d else None
        if k is None:
            if (c == 0) != (d == 0):
                return True
        elif k[1] == 0:
            if k[0] != 1:
                return True
        elif self.N and k[0] in (1, Q - 1):
            return True                       # psi has order exactly N
        else:
            return None
        lo, hi = self.ctx.range(self.ctx.sub(x, y))
        return False if -Q < lo and hi < Q else None

    # -------------------------------------------------------- C library
    def global_region(self, name):
        return self.std.get(name) or super().global_region(name)

    def text(self, p):
        if not isinstance(p, Ptr) or p.r is None or p.r.es != 1 or type(p.o) is not int:
            raise Undecided('string')
        out, i = [], p.o
        while True:
            if i >= len(p.r.cells):
                self.obl.fail('memory', 'string not terminated')
                raise Refuted('string')
            c = p.r.cells[i]
            if type(c) is not int:
                raise Undecided('string of unknown characters')
            if c & 255 == 0:
                return bytes(out).decode('latin1')
            out.append(c & 255)
            i += 1

    def format(self, fmt, args):
        out, k = [], 0
        args = list(args)
        for part in re.split(r'(%[-+ 0#]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j)?[a-zA-Z%])', fmt):
            m = re.fullmatch(r'%([-+ 0#]*)(\d*)((?:\.\d+)?)(hh|h|ll|l|z|j)?([a-zA-Z%])', part)
            if not m:
                out.append(part)
                continue
            cv = m.group(5)
            if cv == '%':
                out.append('%')
                continue
            if not args:
                self.obl.fail('memory', 'missing argument of ' + fmt)
                raise Refuted('format')
            v = args.pop(0)
            if cv == 's':
                out.append(self.text(v))
            elif cv in 'diu' and not isinstance(v, Ptr):
                bits = {'l': 64, 'll': 64, 'z': 64, 'j': 64}.get(m.group(4), 32)
                v = self.ctx.unsigned(v, bits) if cv == 'u' else self.ctx.signed(v, bits)
                if type(v) is int:
                    out.append(('%' + m.group(1) + m.group(2) + 'd') % v)
                else:
                    out.append('\x01%d\x01' % len(self.vals))
                    self.vals.append(v)
            elif cv == 'c' and type(v) is int:
                out.append(chr(v & 255))
            else:
                raise Undecided('format ' + part)
        return ''.join(out)

    def effect(self):
        if self.pathc:
            raise Undecided('output under a symbolic condition')

    def stream(self, p):
        if not isinstance(p, Ptr) or p.r is None:
            self.obl.fail('memory', 'output to a null stream')
            raise Refuted('null stream')
        if p.r.name.startswith('FILE '):
            return self.errout
        f = self.open.get(p.r)
        if f is None:
            self.obl.fail('memory', 'output to a closed stream')
            raise Refuted('closed stream')
        return f

    def c__fprintf(self, a):
        self.effect()
        self.stream(a[0]).append(self.format(self.text(a[1]), a[2:]))
        return 1

    def c__printf(self, a):
        self.effect()
        self.errout.append(self.format(self.text(a[0]), a[1:]))
        return 1

    def c__fputs(self, a):
        self.effect()
        self.stream(a[1]).append(self.text(a[0]))
        return 1

    def c__puts(self, a):
        self.effect()
        self.errout.append(self.text(a[0]) + '\n')
        return 1

    def c__fputc(self, a):
        self.effect()
        if type(a[0]) is not int:
            raise Undecided('character')
        self.stream(a[1]).append(chr(a[0] & 255))
        return 1

    c__putc = c__fputc

    def c__snprintf(self, a):
        self.effect()
        s = self.format(self.text(a[2]), a[3:])
        if type(a[1]) is not int or '\x01' in s:
            raise Undecided('snprintf')
        for i, ch in enumerate((s[:a[1] - 1] + '\0') if a[1] else ''):
            self.store(Ptr(a[0].r, self.ctx.add(a[0].o, i)), 1, ord(ch), 'snprintf')
        return len(s)

    def c__fopen(self, a):
        self.effect()
        f = dict(name=self.text(a[0]), mode=self.text(a[1]), text=[], closed=False)
        self.files.append(f)
        r = Region('stream ' + f['name'], 8, [0])
        self.open[r] = f['text']
        return Ptr(r, 0)

    def c__fclose(self, a):
        self.effect()
        self.stream(a[0])
        self.open.pop(a[0].r, None)
        return 0

    def c__fflush(self, a):
        return 0

    def c__exit(self, a):
        self.effect()
        raise Stop(a[0])

    def c__abort(self, a):
        raise Stop(134)

    def c____assert_fail(self, a):
        self.obl.fail('assertion', 'assertion "%s" fails in %s' % (self.text(a[0]), self.callstack[-1]))
        raise Stop(134)

    def c__malloc(self, a):
        if type(a[0]) is not int or a[0] % 4:
            raise Undecided('malloc')
        return Ptr(Region('heap', 4, [None] * (a[0] // 4)), 0)

    def c__calloc(self, a):
        if type(a[0]) is not int or type(a[1]) is not int or a[0] * a[1] % 4:
            raise Undecided('calloc')
        return Ptr(Region('heap', 4, [0] * (a[0] * a[1] // 4)), 0)

    def c__free(self, a):
        if a[0].r is not None:
            if a[0].r.freed or a[0].r.name != 'heap' or a[0].o != 0:
                self.obl.fail('memory', 'free of a pointer that is not allocated')
                raise Refuted('free')
            a[0].r.freed = True

    def c__atol(self, a):
        for k, r in enumerate(self.argr):
            if r is a[0].r and a[0].o == 0:
                return self.args[k]
        raise Undecided('atol')

    def c__atoi(self, a):
        return self.ctx.signed(self.c__atol(a), 32)

    c__atoll = c__atol

    def c__strlen(self, a):
        return len(self.text(a[0]))

    def c____errno_location(self, a):
        return Ptr(Region('errno', 4, [0]), 0)

    def conv(self, a):
        v = self.c__atol(a)
        if a[2] not in (0, 10):
            raise Undecided('base')
        if a[1].r is not None:
            self.store(a[1], 8, Ptr(a[0].r, 1), 'strtol')
        return v

    def main(self, *args, argc=None):
        """Runs main with the given numeric arguments: exit status."""
        self.args = [None] + list(args)
        self.argr = [Region('argv%d' % i, 1, [ord('1'), 0]) for i in range(len(args) + 1)]
        av = Region('argv', 8, [Ptr(r, 0) for r in self.argr] + [NULL])
        try:
            return self.call('main', [len(args) + 1 if argc is None else argc, Ptr(av, 0)])
        except Stop as e:
            return e.args[0]

    def file(self, name):
        t = [f for f in self.files if f['name'] == name]
        return ''.join(t[-1]['text']) if t else None


# ------------------------------------------------------------------ contents of the generated files
def clean(s):
    return re.sub(r'//[^\n]*', ' ', re.sub(r'/\*.*?\*/', ' ', s, flags=re.S))


def tables(src, macros):
    """name -> (element type, size, list of entry texts)"""
    out = {}
    for m in re.finditer(r'\bconst\s+(\w+)\s+(\w+)\s*\[\s*(\w+)\s*\]\s*(\[\s*2\s*\])?\s*=\s*\{(.*?)\}\s*;', src, re.S):
        ty, name, size, two, body = m.groups()
        size = int(size) if size.isdigit() else macros.get(size)
        ents = [x.strip() for x in re.sub(r'[{}]', ' ', body).split(',')]
        if ents and ents[-1] == '':
            ents.pop()
        out[name] = (ty, size, two is not None, ents)
    return out


def decls(hdr):
    return {m.group(2): (m.group(1), m.group(3), m.group(4) is not None) for m in
            re.finditer(r'\bextern\s+const\s+(\w+)\s+(\w+)\s*\[\s*(\w+)\s*\]\s*(\[\s*2\s*\])?\s*;', hdr)}


def macros_of(hdr):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'#define\s+(\w+)\s+(\d+)\s*$', hdr, re.M)}


class Rep:
    """Obligation list in the form the Hoare properties use."""
    def __init__(self, ex=None):
        self.obls = []
        if ex is not None:
            self.take(ex)

    def take(self, ex):
        for k, v in ex.obl.count.items():
            bad = [q for q in ex.obl.fails if q['kind'] == k]
            self.obls += [({'memory': 'inside the arrays'}.get(k, k), True, None)] * (v - len(bad))
        for q in ex.obl.fails:
            self.obls.append((q['msg'], False, 'refuted' if q['kind'] != 'overflow' or 'term' not in q else 'refuted'))

    def need(self, ok, name):
        self.obls.append((name, bool(ok), None if ok else 'refuted'))
        return ok


    def form(self, ok, name):
        """What is read off the text of a file: if it does not have the expected shape, the compiled file decides."""
        if not ok:
            raise Undecided('text of a generated file: ' + name)
        return True


def bitrev(i, k):
    r = 0
    for _ in range(k):
        r = 2 * r + (i & 1)
        i >>= 1
    return r


def rev_contract(mod):
    """Contract of reverse(i, k), proved by prove_reverse."""
    if 'reverse' not in mod.funcs or len(mod.funcs['reverse'].params) != 2:
        return {}

    def h(ex, a):
        if type(a[0]) is not int or type(a[1]) is not int or not 0 <= a[1] <= 31 or not 0 <= a[0] < 1 << a[1]:
            raise Undecided('reverse')
        return bitrev(a[0], a[1])
    return {'reverse': h}


def prove_reverse(src):
    """reverse(i, k) is the reversal of the k low bits of i, for every i below 2^k and k up to 31."""
    import z3
    from . import bv
    mod = module(src)
    M = bv.Machine(mod)
    if not rev_contract(mod):
        M.obls.append(('no function reverse: its callers are executed in full', True, None))
        return M
    i = z3.BitVec('i', 32)
    for k in range(32):
        st = bv.St()
        st.path.append(z3.ULT(z3.ZeroExt(32, i), bv.bvv(1 << k, 64)))
        for s, v in M.function(st, 'reverse', [i, bv.bvv(k, 32)]):
            M.oblige(s, v == bv.rev(i, k, 32), 'reverse: bits of a %d-bit index reversed' % k)
    return M


def prove_bitrev_gen(n):
    """make_bitrev_table n: exactly the pairs (i, rev i) with i < rev i, each once; matching header."""
    mod = module('make_bitrev_table.c')
    ex = Gen(mod, None, rev_contract(mod))
    r = ex.main(n)
    R = Rep(ex)
    k = n.bit_length() - 1
    want = [(i, bitrev(i, k)) for i in range(n) if i < bitrev(i, k)]
    R.need(r == 0, 'size %d is accepted' % n)
    h, c = ex.file('bitrev%d_table.h' % n), ex.file('bitrev%d_table.c' % n)
    if not R.need(h is not None and c is not None, 'both files are written for %d' % n):
        return R
    R.need(not ex.open, 'files are closed')
    h, c = clean(h), clean(c)
    mac = macros_of(h)
    if R.form('BITREV%d_NPAIRS' % n in mac, 'number of pairs'):
        R.need(mac['BITREV%d_NPAIRS' % n] == len(want), 'header for %d: number of pairs' % n)
    d = decls(h).get('bitrev%d' % n)
    R.form(d is not None and d[0] == 'uint16_t' and d[2] and (d[1] in mac or d[1].isdigit()), 'declaration')
    R.need(mac.get(d[1], d[1]) in (len(want), str(len(want))), 'header for %d: declared size' % n)
    R.form('#include "bitrev%d_table.h"' % n in c, 'inclusion of the header')
    t = tables(c, mac).get('bitrev%d' % n)
    R.form(t is not None and t[0] == 'uint16_t' and t[2], 'definition')
    R.form(t[3] == [] if n == 2 else all(re.fullmatch(r'\d+', x) for x in t[3]), 'entries')
    R.need(t[1] == len(want), 'source for %d: size of the table' % n)
    v = [int(x) for x in t[3]]
    got = list(zip(v[::2], v[1::2]))
    R.need(len(v) == 2 * len(want) and len(set(got)) == len(got), 'source for %d: each pair once' % n)
    w = set(want)
    for p in got:
        R.need(p in w, 'pair %r of the table for %d is (i, bit-reverse of i) with i smaller' % (p, n))
    return R


def prove_logtwo(src, hi):
    """logtwo(n, &k): true exactly for powers of two, and then n = 2^k."""
    import z3
    from . import bv
    mod = module(src)
    M = bv.Machine(mod)
    f = mod.funcs.get('logtwo')
    if f is None or len(f.params) != 2:
        raise Undecided('no function logtwo(n, k)')
    n = z3.BitVec('n', 32)
    c = bv.Cell('k', 32)
    st = bv.St()
    st.path += [z3.UGE(n, 2), z3.ULE(n, hi)]
    for s, v in M.function(st, 'logtwo', [n, bv.BPtr(c, bv.bvv(0, 64))]):
        v = v if z3.is_bool(v) else v != 0
        p2 = z3.And((n & (n - 1)) == 0)
        M.oblige(s, v == p2, 'logtwo: true exactly for powers of two')
        k = s.mem.get(c)
        if k is None:
            M.oblige(s, z3.Not(v), 'logtwo: the exponent is set when it returns true')
        else:
            M.oblige(s, z3.Implies(v, z3.And(z3.ULT(k, 32), n == bv.bvv(1, 32) << k)), 'logtwo: n = 2^k')
    return M


def refused(ex, R, what, *args, **kw):
    st = ex.main(*args, **kw)
    R.take(ex)
    R.need(type(st) is int and st % 256 != 0, what + ': non-zero exit status')
    R.need(not ex.files, what + ': no file is created')


def prove_bitrev_refuses():
    mod = module('make_bitrev_table.c')
    R = Rep()
    C = lambda: Gen(mod, None, rev_contract(mod))
    ex = C()
    refused(ex, R, 'size at most 0', ex.ctx.var('x', -(1 << 63), 0))
    ex = C()
    refused(ex, R, 'size above 65536', ex.ctx.var('x', 65537, (1 << 63) - 1))
    ex = C()
    ex.contracts['logtwo'] = lambda e, a: 0
    refused(ex, R, 'size that is not a power of two', ex.ctx.var('x', 2, 65534))
    ex = C()
    refused(ex, R, 'size 65535', 65535)
    for x in (1, 65536):                 # refused, or accepted with a correct table
        ex = C()
        st = ex.main(x)
        if st == 0:
            R.obls += prove_bitrev_gen(x).obls
        else:
            refused(C(), R, 'size %d' % x, x)
    return R


# ------------------------------------------------------------------ C11
def expected(kind, n):
    """table name -> list of (c, e): c * psi^e, None where unspecified; and the constants of the header."""
    i3 = pow(3, -1, Q)
    inv_n = pow(n, -1, Q)
    s = i3 if kind == 'red' else 1
    lg = lambda t: t.bit_length() - 1

    def power(c, y):
        return [(c, y * i) for i in range(n)]

    def tab(x, y, rv):
        out = [None] * n
        t = 1
        while t < n:
            for j in range(t):
                out[t + j] = (s, (n // (2 * t)) * (x + y * (bitrev(j, lg(t)) if rv else j)))
            t *= 2
        return out
    T = {'psi_powers': power(s, 1), 'inv_psi_powers': power(s, -1)}
    if kind == 'red':
        T['psi_powers_rev'] = tab(0, 1, True)
        T['scaled_inv_psi_powers'] = power(pow(i3, 8, Q) * inv_n % Q, -1)
        T['scaled_inv_psi_powers_var'] = power(pow(i3, 6, Q) * inv_n % Q, -1)
    else:
        T['inv_psi_powers_rev'] = tab(0, -1, True)
        T['scaled_inv_psi_powers'] = power(inv_n, -1)
    for nm, x, y in (('omega', 0, 2), ('inv_omega', 0, -2), ('mixed', 1, 2), ('inv_mixed', -1, -2)):
        T[nm + '_powers'] = tab(x, y, False)
        T[nm + '_powers_rev'] = tab(x, y, True)
    K = dict(psi=(1, 1), omega=(1, 2), inv_psi=(1, -1), inv_omega=(1, -2), inv_n=(inv_n, 0))
    if kind == 'red':
        K.update(inv_k=(i3, 0), rescale8=(pow(i3, 8, Q) * inv_n % Q, 0), rescale6=(pow(i3, 6, Q) * inv_n % Q, 0))
    return T, K


UNDECLARED = {'inv_psi_powers_rev', 'psi_powers_rev'}        # defined, not declared in the header


def inverse_contract(mod):
    if 'inverse' not in mod.funcs or len(mod.funcs['inverse'].params) != 3:
        return {}

    def h(ex, a):
        c, e = ex.residue(a[0])
        lo, hi = ex.ctx.range(a[0]) if isinstance(a[0], Lin) else (a[0], a[0])
        if a[1] != Q or not (0 <= lo and hi < Q) or c == 0:
            raise Undecided('inverse')
        ex.store(a[2], 4, ex.fresh(pow(c, -1, Q), -e), 'inverse')
        return 1
    return {'inverse': h}


def prove_inverse(src, lo, hi):
    """inverse(x, Q, &r) returns true and the inverse, for each x in [lo, hi)."""
    mod = module(src)
    R = Rep()
    if not inverse_contract(mod):
        R.need(True, 'no function inverse: its callers are executed in full')
        return R
    for x in range(lo, hi):
        ex = Exec(mod, Ctx(), Obl(), externs={'__assert_fail': assert_fails})
        r = Region('inv', 4, [None])
        ok = ex.call('inverse', [x, Q, Ptr(r, 0)])
        R.take(ex)
        v = r.cells[0]
        R.need(ok == 1 and type(v) is int and 0 < v < Q and v * x % Q == 1, 'inverse(%d) is the inverse modulo Q in [1,Q-1]' % x)
    return R


def assert_fails(ex, a):
    raise Refuted('an assertion fails')


KIND = {'plain': ('make_tables.c', 'ntt%d', 'uint16_t', 0, Q - 1), 'red': ('make_red_tables.c', 'ntt_red%d', 'int16_t', -6144, 6144)}


def prove_tables(kind, n):
    """The generator at size n, for every psi with psi^n = -1."""
    src, pre, ty, lo, hi = KIND[kind]
    pre = pre % n
    mod = module(src)
    ex = Gen(mod, n, dict(rev_contract(mod), **inverse_contract(mod)))
    psi = ex.fresh(1, 1)
    st = ex.main(n, psi)
    R = Rep(ex)
    R.need(st == 0, 'size %d and a root psi are accepted' % n)
    h, c = ex.file(pre + '_tables.h'), ex.file(pre + '_tables.c')
    if not R.need(h is not None and c is not None and all(f['mode'].startswith('w') for f in ex.files), 'both files are written'):
        return R
    R.need(not ex.open, 'files are closed')
    h, c = clean(h), clean(c)
    T, K = expected(kind, n)
    tb, dc = tables(c, macros_of(h)), decls(h)

    def value(x):
        if re.fullmatch(r'-?\d+', x):
            return int(x)
        m = re.fullmatch('\x01(\\d+)\x01', x)
        return ex.vals[int(m.group(1))] if m else None

    def same(v, want, lo, hi, what):
        a, b = (v, v) if type(v) is int else ex.ctx.range(v)
        R.need(lo <= a and b <= hi, what + ': within [%d,%d]' % (lo, hi))
        R.need(ex.residue(v) == ex.norm(*want), what)
    R.form('#include "%s_tables.h"' % pre in c, 'inclusion of the header')
    for nm, (c0, e0) in K.items():
        m = re.search(r'const\s+int32_t\s+%s_%s\s*=\s*([^;]*);' % (pre, nm), h)
        R.form(m is not None and value(m.group(1).strip()) is not None, 'constant ' + nm)
        same(value(m.group(1).strip()), (c0, e0), 0, Q - 1, nm)
    for nm, ents in T.items():
        t = tb.get('%s_%s' % (pre, nm))
        if nm not in UNDECLARED:
            R.form(dc.get('%s_%s' % (pre, nm)) == (ty, str(n), False), 'declaration of ' + nm)
        R.form(t is not None and t[0] == ty and t[1] == n and all(value(x) is not None for x in t[3]), 'definition of ' + nm)
        if not R.need(len(t[3]) == n, 'table %s: number of entries' % nm):
            continue
        for i, w in enumerate(ents):
            v = value(t[3][i])
            if w is None:
                a, b = (v, v) if type(v) is int else ex.ctx.range(v)
                R.need(lo - 1 <= a and b <= hi + 1, '%s[%d] (unused) fits the type' % (nm, i))
            else:
                same(v, w, lo, hi, '%s[%d]' % (nm, i))
    return R


def prove_power(src):
    """power(x, n, Q) is x^n modulo Q in [0,Q-1], for every x in [0,Q-1] and each size n."""
    mod = module(src)
    R = Rep()
    if 'power' not in mod.funcs or len(mod.funcs['power'].params) != 3:
        raise Undecided('no function power(x, k, q)')
    for k in range(1, 17):
        ex = Gen(mod)
        x = ex.fresh(1, 1)
        v = ex.call('power', [x, 1 << k, Q])
        R.take(ex)
        lo, hi = ex.ctx.range(v) if isinstance(v, Lin) else (v, v)
        R.need(ex.residue(v) == (1, 1 << k) and 0 <= lo and hi < Q, 'power(x, %d) = x^%d modulo Q, reduced' % (1 << k, 1 << k))
    return R


def prove_refuses(kind):
    src = KIND[kind][0]
    mod = module(src)
    R = Rep()
    C = lambda: Gen(mod, None, dict(rev_contract(mod), **inverse_contract(mod)))
    big = (1 << 63) - 1
    for a, b, what in ((-big - 1, 0, 'size at most 0'), (100000, big, 'size of 100000 or more')):
        for p in (2, 1212, 12288, 0):
            ex = C()
            refused(ex, R, what, ex.ctx.var('x', a, b), p)
    ex = C()
    ex.contracts['logtwo'] = lambda e, a: 0
    refused(ex, R, 'size that is not a power of two', ex.ctx.var('x', 2, 99999), ex.ctx.var('p', -big - 1, big))
    for k in range(1, 17):
        for a, b, what in ((-big - 1, 1, 'psi at most 1'), (Q, big, 'psi of Q or more')):
            ex = C()
            refused(ex, R, what, 1 << k, ex.ctx.var('p', a, b))
        # the power is any residue but -1
        ex = C()
        if 'power' not in mod.funcs:
            raise Undecided('no function power')

        def power(e, a, n=1 << k):
            if a[1] != n or a[2] != Q:
                raise Undecided('power')
            return e.ctx.var('pw', 0, Q - 2)
        ex.contracts['power'] = power
        refused(ex, R, 'psi^n is not -1, n=%d' % (1 << k), 1 << k, ex.ctx.var('p', 2, Q - 1))
    for argc in (1, 2):
        ex = C()
        refused(ex, R, '%d arguments' % (argc - 1), *([16, 1212, 0, 0][:argc - 1]))
    return R


# ------------------------------------------------------------------ generated files, compiled
def order(psi, n):
    return 2 <= psi < Q and pow(psi, n, Q) == Q - 1


def compiled(kind, n, psi=None):
    """Runs the generator, compiles its files and compares every value: failing input or None."""
    import os, subprocess, tempfile, shutil
    src = 'make_bitrev_table' if kind == 'bitrev' else KIND[kind][0][:-2]
    top = build.source_tree()
    d = tempfile.mkdtemp(dir=build.scratch())
    exe = os.path.join(build.scratch(), src + '-dbg')
    if not os.path.exists(exe):
        build.sh(['gcc', '-w', '-o', exe + str(os.getpid()), src + '.c'], cwd=top)
        os.replace(exe + str(os.getpid()), exe)
    args = [str(n)] + ([] if psi is None else [str(psi)])
    inp = dict(program=src, arguments=' '.join(args))
    try:
        r = subprocess.run([exe] + args, cwd=d, capture_output=True, text=True, timeout=100)
        if r.returncode:
            return dict(inp, observed='exit status %d: %s' % (r.returncode, r.stderr[-200:]))
        if kind == 'bitrev':
            h, want = 'bitrev%d_table.h' % n, {}
            k = n.bit_length() - 1
            pairs = [(i, bitrev(i, k)) for i in range(n) if i < bitrev(i, k)]
            body = 'P("size", sizeof bitrev%d / 4); P("npairs", BITREV%d_NPAIRS); for (i = 0; i < (int) (sizeof bitrev%d / 4); i++) { P("", bitrev%d[i][0]); P("", bitrev%d[i][1]); }' % (n, n, n, n, n)
            ext = ''
        else:
            pre, ty = KIND[kind][1] % n, KIND[kind][2]
            h = pre + '_tables.h'
            T, K = expected(kind, n)
            body = ''.join('P("%s", %s_%s);' % (x, pre, x) for x in K)
            body += ''.join('for (i = 0; i < (int) (sizeof %s_%s / 2); i++) P("%s", %s_%s[i]);' % (pre, x, x, pre, x) for x in T)
            ext = ''.join('extern const %s %s_%s[%d];' % (ty, pre, x, n) for x in T if x in UNDECLARED)
        with open(os.path.join(d, 'm.c'), 'w') as f:
            f.write('#include <stdio.h>\n#include "%s"\n%s\n#define P(w, x) printf("%%s %%ld\\n", w, (long) (x))\nint main(void) { int i; %s return 0; }\n' % (h, ext, body))
        r = subprocess.run(['gcc', '-std=c99', '-Wall', '-Wno-unused', '-o', 'm', 'm.c', h[:-1] + 'c'], cwd=d, capture_output=True, text=True, timeout=100)
        if r.returncode:
            return dict(inp, observed='the generated files do not compile: ' + r.stderr[:400])
        got = [l.rsplit(' ', 1) for l in subprocess.run(['./m'], cwd=d, capture_output=True, text=True, timeout=20).stdout.splitlines()]
        got = [(w, int(x)) for w, x in got]
        if kind == 'bitrev':
            if got[0][1] != len(pairs) or got[1][1] != len(pairs):
                return dict(inp, observed='%d pairs, header says %d, should be %d' % (got[0][1], got[1][1], len(pairs)))
            v = [x for _, x in got[2:]]
            if sorted(zip(v[::2], v[1::2])) != pairs:
                bad = [p for p in zip(v[::2], v[1::2]) if p not in set(pairs)] or ['a pair twice']
                return dict(inp, observed='wrong pair %r' % (bad[0],))
            return None
        at = 0
        for nm, w in [(x, [c]) for x, c in K.items()] + list(T.items()):
            for i, ce in enumerate(w):
                if at >= len(got) or got[at][0] != nm:
                    return dict(inp, observed='%s has the wrong size' % nm)
                if ce is not None:
                    x = ce[0] * pow(psi, ce[1] % (2 * n), Q) % Q
                    if kind == 'red' and nm in T and x > 6144:
                        x -= Q
                    if got[at][1] != x:
                        return dict(inp, observed='%s[%d] is %d, should be %d' % (nm, i, got[at][1], x))
                at += 1
        if at != len(got):
            return dict(inp, observed='tables are too long')
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def roots(n):
    return [x for x in range(2, Q) if pow(x, n, Q) == Q - 1]
