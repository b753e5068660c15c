"""Symbolic executor for the AVX2 routines: runs the disassembly of the object assembled from
/repo/src/ntt_asm.S.  Vector registers are 8 dword lanes; each lane is an int/Lin that is
congruent modulo 2^32 to the lane's bits."""
import re, struct
from . import build
from .terms import Lin, Undecided, Refuted
from .irexec import Ptr, Region

_image = {}


class Image:
    pass


def image(src='ntt_asm.S'):
    """Assemble, link and disassemble; returns code and data."""
    if src in _image:
        return _image[src]
    import os
    d = build.source_tree()
    so = os.path.join(build.scratch(), 'asmimg.so')
    build.sh(['gcc', '-shared', '-nostdlib', '-Wl,-z,noexecstack', '-o', so, src], cwd=d)
    dis = build.sh(['objdump', '-d', '-w', '--no-show-raw-insn', '-M', 'intel', so]).stdout
    im = Image()
    im.code = {}
    im.next = {}
    prev = None
    for l in dis.split('\n'):
        m = re.match(r'\s*([0-9a-f]+):\s+(.*)$', l)
        if not m:
            continue
        a = int(m.group(1), 16)
        im.code[a] = decode(m.group(2).strip())
        if prev is not None:
            im.next[prev] = a
        prev = a
    im.syms = {}
    for l in build.sh(['nm', so]).stdout.split('\n'):
        p = l.split()
        if len(p) == 3:
            im.syms[p[2]] = (int(p[0], 16), p[1])
    # data sections
    b = open(so, 'rb').read()
    shoff, = struct.unpack_from('<Q', b, 0x28)
    shentsize, shnum, shstrndx = struct.unpack_from('<HHH', b, 0x3a)
    secs = []
    for i in range(shnum):
        name, typ, flags, addr, off, size = struct.unpack_from('<IIQQQQ', b, shoff + i * shentsize)
        secs.append((name, typ, flags, addr, off, size))
    im.data = []
    for name, typ, flags, addr, off, size in secs:
        if typ == 1 and flags & 2 and not flags & 4 and size:
            raw = b[off:off + size]
            im.data.append((addr, raw))
    _image[src] = im
    return im


SIZES = {'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, 'YMMWORD': 32}
R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
R32 = {'eax': 'rax', 'ebx': 'rbx', 'ecx': 'rcx', 'edx': 'rdx', 'esi': 'rsi', 'edi': 'rdi', 'ebp': 'rbp', 'esp': 'rsp'}
R32.update({'r%dd' % i: 'r%d' % i for i in range(8, 16)})
R16 = {'ax': 'rax', 'bx': 'rbx', 'cx': 'rcx', 'dx': 'rdx', 'si': 'rsi', 'di': 'rdi'}
R16.update({'r%dw' % i: 'r%d' % i for i in range(8, 16)})
R8 = {'al': 'rax', 'bl': 'rbx', 'cl': 'rcx', 'dl': 'rdx', 'sil': 'rsi', 'dil': 'rdi'}


def decode_op(s):
    s = s.strip()
    m = re.match(r'(?:(\w+) PTR )?\[(.*)\]$', s)
    if m:
        size = SIZES.get(m.group(1)) if m.group(1) else None
        base = idx = None
        scale = 1
        disp = 0
        expr = m.group(2).replace('-', '+-')
        for t in expr.split('+'):
            if not t:
                continue
            if '*' in t:
                r, k = t.split('*')
                idx, scale = r, int(k, 0)
            elif re.match(r'-?(0x)?[0-9a-f]+$', t) and t not in R64:
                disp += int(t, 16) if 'x' in t else int(t, 0)
            elif base is None:
                base = t
            else:
                idx = t
        return ('m', size, base, idx, scale, disp)
    if re.match(r'-?(0x)[0-9a-f]+$', s) or re.match(r'-?\d+$', s):
        return ('i', int(s, 16) if 'x' in s else int(s))
    m = re.match(r'(xmm|ymm)(\d+)$', s)
    if m:
        return ('v', int(m.group(2)), 16 if m.group(1) == 'xmm' else 32)
    if s in R64:
        return ('r', s, 64)
    if s in R32:
        return ('r', R32[s], 32)
    if s in R16:
        return ('r', R16[s], 16)
    if s in R8:
        return ('r', R8[s], 8)
    return ('?', s)


def decode(s):
    target = None
    m = re.search(r'#\s+([0-9a-f]+)', s)
    if m:
        target = int(m.group(1), 16)
        s = s[:m.start()].strip()
    s = re.sub(r'<[^>]*>', '', s).strip()
    parts = s.split(None, 1)
    op = parts[0]
    while op in ('data16', 'cs', 'bnd', 'notrack', 'rex.W', 'repz') and len(parts) > 1:
        parts = parts[1].split(None, 1)
        op = parts[0]
    ops = []
    rest = parts[1] if len(parts) > 1 else ''
    if op[0] == 'j' or op == 'call':
        try:
            return (op, [int(rest.split()[0], 16)], None, s)
        except (ValueError, IndexError):
            return (op, ['?'], None, s)
    if rest:
        ops = [decode_op(x) for x in rest.split(',')]
    return (op, ops, target, s)


CALLEE_SAVED = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15', 'rsp']


class X86:
    def __init__(self, ctx, obl, im=None, max_steps=5_000_000):
        self.ctx = ctx
        self.obl = obl
        self.im = im or image()
        self.max_steps = max_steps
        self.steps = 0
        self.journal = None
        self.datareg = []
        for addr, raw in self.im.data:
            pad = len(raw) % 4
            raw2 = raw + b'\0' * ((4 - pad) % 4)
            cells = list(struct.unpack('<%di' % (len(raw2) // 4), raw2))
            self.datareg.append((addr, len(raw2), Region('.data', 4, cells, False)))
        self.pathc = []
        self.used = set()
        self.cutlookup = False
        self.autocut = False       # name every residue-clean sum (keeps nested terms small)
        self.special = {}
        self.events = []
        self.inductive = None
        self.facts = []
        self.trace = []
        self.loops = 0

    # ------------------------------------------------------------ memory
    def addr(self, o, target):
        _, size, base, idx, scale, disp = o
        c = self.ctx
        if base == 'rip':
            for a, n, r in self.datareg:
                if a <= target < a + n:
                    return Ptr(r, target - a)
            raise Undecided('rip-relative address %x' % target)
        b = self.regs[base] if base else 0
        off = disp
        if idx:
            i = self.regs[idx]
            if isinstance(i, Ptr):
                if scale == 1 and not isinstance(b, Ptr):
                    b, i = i, b
                else:
                    raise Undecided('scaled pointer')
            i = self.norm64(i)
            off = c.add(off, c.mulc(i, scale))
        if isinstance(b, Ptr):
            return Ptr(b.r, c.add(b.o, off))
        raise Undecided('address without base pointer')

    def norm64(self, v):
        if isinstance(v, Ptr):
            return v
        return self.ctx.signed(v, 64)

    def cell(self, r, o, what):
        es = r.es
        if r.freed or o < 0 or o + es > es * len(r.cells):
            self.obl.fail('memory', '%s outside %s at offset %d' % (what, r.name, o), region=r.name, off=o)
            raise Refuted('out-of-bounds %s of %s' % (what, r.name))
        return o // es

    def load_units(self, p, size, unit):
        """Load size bytes as a list of `unit`-byte values (representatives modulo 2^(8 unit))."""
        r, o = p.r, p.o
        if r.hook is not None:
            if unit < r.es:
                m = r.es // unit
                out = []
                for k in range(size // r.es):
                    v = r.hook.load(self, r, self.ctx.add(o, k * r.es), r.es, 'asm')
                    out += [self.ctx.floordiv(v, 1 << (8 * unit * j)) for j in range(m)]
                return out
            return [r.hook.load(self, r, self.ctx.add(o, k * unit), unit, 'asm') for k in range(size // unit)]
        if type(o) is not int:
            raise Undecided('symbolic address')
        es = r.es
        c = self.ctx
        if o % es:
            raise Undecided('misaligned access of ' + r.name)
        out = []
        if size % unit:
            raise Undecided('access size')
        cells = []
        k = o
        end = o + size
        while k < end:
            i = self.cell(r, k, 'read')
            v = r.cells[i]
            if v is None:
                self.obl.fail('memory', 'read of uninitialised %s[%d]' % (r.name, i))
                raise Refuted('uninitialised read')
            self.obl.ok('memory')
            cells.append(v)
            k += es
        if k != end:
            # partial last cell
            raise Undecided('partial cell read')
        if es == unit:
            return cells
        if es < unit:
            m = unit // es
            for i in range(0, len(cells), m):
                acc = 0
                for j in range(m):
                    v = cells[i + j]
                    if isinstance(v, Ptr):
                        raise Undecided('pointer in vector')
                    acc = c.add(acc, c.mulc(c.unsigned(v, 8 * es) if j < m - 1 else v, 1 << (8 * es * j)))
                out.append(acc)
            return out
        m = es // unit
        for v in cells:
            if isinstance(v, Ptr):
                raise Undecided('pointer split')
            for j in range(m):
                out.append(c.floordiv(v, 1 << (8 * unit * j)))
        return out

    def store_units(self, p, vals, unit):
        r, o = p.r, p.o
        c = self.ctx
        if r.hook is not None:
            if unit < r.es:
                raise Undecided('sub-element store')
            for k, v in enumerate(vals):
                r.hook.store(self, r, c.add(o, k * unit), unit, c.signed(v, 8 * unit), 'asm')
            return
        if type(o) is not int:
            raise Undecided('symbolic address')
        es = r.es
        if o % es:
            raise Undecided('misaligned access of ' + r.name)
        if not r.writable:
            self.obl.fail('memory', 'write to read-only %s' % r.name, region=r.name, off=o)
            raise Refuted('write to read-only ' + r.name)
        if es == unit:
            for k, v in enumerate(vals):
                i = self.cell(r, o + k * unit, 'write')
                if not isinstance(v, Ptr):
                    v = c.signed(v, 8 * unit)
                    if r.cutting and type(v) is Lin:
                        v = c.cut(v)
                self.obl.ok('memory')
                if self.journal is not None:
                    self.journal.append((r, i, r.cells[i]))
                r.cells[i] = v
                r.written = True
                if r.wlog is not None:
                    r.wlog.add(i)
            return
        if es < unit:
            m = unit // es
            out = []
            for v in vals:
                for j in range(m):
                    out.append(c.floordiv(v, 1 << (8 * es * j)))
            return self.store_units(p, out, es)
        m = es // unit
        if len(vals) % m:
            raise Undecided('partial cell write')
        out = []
        for i in range(0, len(vals), m):
            acc = 0
            for j in range(m):
                v = vals[i + j]
                acc = c.add(acc, c.mulc(c.unsigned(v, 8 * unit) if j < m - 1 else v, 1 << (8 * unit * j)))
            out.append(acc)
        return self.store_units(p, out, es)

    # ------------------------------------------------------------ registers
    def get(self, o, target=None, size=None):
        k = o[0]
        if k == 'i':
            return o[1]
        if k == 'r':
            v = self.regs[o[1]]
            if v is None:
                self.obl.fail('memory', 'use of undefined register ' + o[1])
                raise Refuted('undefined register ' + o[1])
            if o[2] == 64:
                return v
            if isinstance(v, Ptr):
                raise Undecided('truncated pointer')
            return self.ctx.unsigned(v, o[2])
        if k == 'm':
            n = o[1] or size
            v = self.load_units(self.addr(o, target), n, n)
            return v[0]
        raise Undecided('operand %r' % (o,))

    def put(self, o, v, target=None):
        if o[0] == 'r':
            if o[2] == 64:
                if not isinstance(v, Ptr):
                    v = self.ctx.unsigned(v, 64) if type(v) is not int else v % (1 << 64)
                self.regs[o[1]] = v
            elif o[2] == 32:
                if isinstance(v, Ptr):
                    raise Undecided('truncated pointer')
                self.regs[o[1]] = self.ctx.unsigned(v, 32)
            else:
                if isinstance(v, Ptr) or isinstance(self.regs[o[1]], Ptr):
                    raise Undecided('partial register')
                old = self.regs[o[1]]
                if old is None:
                    raise Undecided('partial undefined register')
                c = self.ctx
                hi = c.floordiv(c.unsigned(old, 64), 1 << o[2])
                self.regs[o[1]] = c.add(c.mulc(hi, 1 << o[2]), c.unsigned(v, o[2]))
            return
        if o[0] == 'm':
            self.store_units(self.addr(o, target), [v], o[1])
            return
        raise Undecided('destination')

    def width(self, ops):
        for o in ops:
            if o[0] == 'r':
                return o[2]
            if o[0] == 'm' and o[1]:
                return o[1] * 8
        return 64

    def vget(self, o, target=None):
        if o[0] == 'v':
            v = self.v[o[1]]
            if v is None:
                self.obl.fail('memory', 'use of undefined vector register %d' % o[1])
                raise Refuted('undefined vector register')
            return v if o[2] == 32 else v[:4]
        if o[0] == 'm':
            return self.load_units(self.addr(o, target), o[1], 4)
        raise Undecided('vector operand')

    def vput(self, o, lanes, target=None):
        if o[0] == 'v':
            lanes = list(lanes)
            if len(lanes) < 8:
                lanes = lanes + [0] * (8 - len(lanes))
            self.v[o[1]] = lanes
            return
        self.store_units(self.addr(o, target), lanes, 4)

    # 64-bit element helpers
    def q(self, lanes, i):
        c = self.ctx
        return c.add(c.unsigned(lanes[2 * i], 32), c.mulc(lanes[2 * i + 1], 1 << 32))

    def split(self, z):
        c = self.ctx
        return [self.lane(z), c.floordiv(z, 1 << 32)]

    def lane(self, v):
        """Shrink a representative modulo 2^32."""
        if type(v) is int:
            return (v + (1 << 31)) % (1 << 32) - (1 << 31)
        return v

    def ac(self, v):
        if self.autocut and type(v) is Lin and len(v.t) > 1:
            w = self.ctx.signed(v, 32)
            u = self.ctx.cut(w)
            return v if u is w else u
        return v

    def lookup(self, v):
        """Replace a value by the cut point of the reference run when it is the same value."""
        if self.autocut:
            return self.ac(v)
        if self.cutlookup and type(v) is Lin and len(v.t) > 1:
            c = self.ctx
            a = c.tab.get(('cut', c.key(v)))
            if a is not None:
                return c.lin(a)
            # maybe equal modulo 2^32 after dropping multiples
            w = c.signed(v, 32)
            if w is not v and type(w) is Lin:
                a = c.tab.get(('cut', c.key(w)))
                if a is not None:
                    return c.lin(a)
        return v

    # ------------------------------------------------------------ flags
    def cond(self, cc):
        if self.flags is None:
            raise Undecided('flags undefined')
        k = self.flags[0]
        c = self.ctx
        if k == 'sub':
            _, x, y, N = self.flags
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r):
                    raise Undecided('comparison of unrelated pointers')
                ux, uy = x.o, y.o
                sx, sy = ux, uy
            else:
                ux, uy = c.unsigned(x, N), c.unsigned(y, N)
                sx, sy = c.signed(x, N), c.signed(y, N)
            lt = c.isneg(c.sub(ux, uy))
            eq = c.iszero(c.sub(ux, uy))
            slt = c.isneg(c.sub(sx, sy))
        else:
            _, r, N = self.flags
            lt = 0
            u = c.unsigned(r, N)
            eq = c.iszero(u)
            slt = c.isneg(c.signed(r, N))
            if k != 'logic' and cc not in ('e', 'z', 'ne', 'nz', 's', 'ns'):
                raise Undecided('carry or overflow flag of an addition or shift')
        NOT = lambda b: c.sub(1, b)

        def OR(a, b):
            return c.sub(c.add(a, b), c.mul(a, b)) if not (type(a) is int and type(b) is int) else int(a or b)
        if cc in ('b', 'c', 'nae'):
            return lt
        if cc in ('ae', 'nb', 'nc'):
            return NOT(lt)
        if cc in ('e', 'z'):
            return eq
        if cc in ('ne', 'nz'):
            return NOT(eq)
        if cc in ('be', 'na'):
            return OR(lt, eq)
        if cc in ('a', 'nbe'):
            return NOT(OR(lt, eq))
        if cc in ('l', 'nge'):
            return slt
        if cc in ('ge', 'nl'):
            return NOT(slt)
        if cc in ('le', 'ng'):
            return OR(slt, eq)
        if cc in ('g', 'nle'):
            return NOT(OR(slt, eq))
        if cc == 's':
            if k == 'sub':
                raise Undecided('sign flag')
            return slt
        if cc == 'ns':
            if k == 'sub':
                raise Undecided('sign flag')
            return NOT(slt)
        raise Undecided('condition ' + cc)

    # ------------------------------------------------------------ run
    def call(self, name, args, argbits=None):
        if name not in self.im.syms:
            raise Undecided('no symbol ' + name)
        self.init_state(args)
        pc = self.im.syms[name][0]
        saved = {r: self.regs[r] for r in CALLEE_SAVED}
        self.saved = saved
        self.sp0 = self.regs['rsp']
        pc = self.run(pc)
        self.check_exit(name)
        return self.regs['rax']

    def init_state(self, args):
        c = self.ctx
        self.regs = {r: None for r in R64}
        for r, a in zip(['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9'], args):
            self.regs[r] = a
        # callee-saved registers hold unknown caller values
        for r in ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']:
            self.regs[r] = c.var('caller_' + r, 0, (1 << 64) - 1)
        st = Region('stack', 8, [None] * 64 + ['retaddr'])
        self.stack = st
        self.regs['rsp'] = Ptr(st, 64 * 8)
        self.v = [None] * 16
        self.flags = None

    def check_exit(self, name):
        c = self.ctx
        for r in CALLEE_SAVED:
            a, b = self.regs[r], self.saved[r]
            if r == 'rsp':
                same = isinstance(a, Ptr) and a.r is b.r and a.o == b.o
            else:
                same = not isinstance(a, Ptr) and a is not None and c.key(a) == c.key(b)
            self.obl.check(same, 'abi', '%s does not preserve %s' % (name, r))
        self.obl.check(self.stack.cells[64] == 'retaddr', 'abi', '%s overwrites its return address' % name)

    def run(self, pc, stop=None):
        im = self.im
        c = self.ctx
        while True:
            if stop is not None and pc in stop:
                return pc
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided('step limit')
            ins = im.code.get(pc)
            if ins is None:
                raise Undecided('jump outside code')
            op, ops, target, text = ins
            self.pc = pc
            nxt = im.next.get(pc)
            if op == 'ret':
                rsp = self.regs['rsp']
                if not (isinstance(rsp, Ptr) and rsp.r is self.stack and type(rsp.o) is int):
                    self.obl.fail('abi', 'ret with a wrong stack pointer')
                    raise Refuted('stack pointer')
                v = self.stack.cells[rsp.o // 8] if 0 <= rsp.o // 8 < 65 else None
                self.obl.check(v == 'retaddr' and rsp.o == self.sp0.o, 'abi', 'ret with unbalanced stack')
                if v != 'retaddr':
                    raise Refuted('unbalanced stack')
                return None
            if op == 'jmp':
                if ops[0] == '?':
                    raise Undecided('indirect jump')
                pc = ops[0]
                continue
            if op[0] == 'j':
                b = self.cond(op[1:])
                if type(b) is not int:
                    b = self.branch(b, pc, op[1:], ops[0], nxt)
                pc = ops[0] if b else nxt
                continue
            self.step(op, ops, target, text)
            pc = nxt

    # ---- inductive treatment of loops with a symbolic trip count
    def pack(self):
        S = [self.regs[r] for r in R64]
        for v in self.v:
            S += v if v is not None else [None] * 8
        f = self.flags
        if f is None:
            S += [None, None]
        elif f[0] == 'sub':
            S += [f[1], f[2]]
        else:
            S += [f[1], 0]
        S += list(self.stack.cells)
        return S

    def unpack_state(self, S, shape):
        from .irexec import MAYBE
        self.regs = {r: (None if S[i] is MAYBE else S[i]) for i, r in enumerate(R64)}
        self.unk = {r for i, r in enumerate(R64) if S[i] is MAYBE}
        p = 16
        for i in range(16):
            l = S[p:p + 8]
            self.v[i] = None if any(x is None or x is MAYBE for x in l) else list(l)
            p += 8
        if shape is None or S[p] is MAYBE or S[p] is None or S[p + 1] is MAYBE:
            self.flags = None
        elif shape[0] == 'sub':
            self.flags = ('sub', S[p], S[p + 1], shape[1])
        else:
            self.flags = (shape[0], S[p], shape[1])
        p += 2
        self.stack.cells[:] = [None if x is MAYBE else x for x in S[p:]]

    def reaches(self, a, b):
        seen = set()
        st = [a]
        while st:
            x = st.pop()
            if x == b:
                return True
            if x in seen or x not in self.im.code:
                continue
            seen.add(x)
            op, ops = self.im.code[x][:2]
            if op == 'ret':
                continue
            if op[0] == 'j':
                if type(ops[0]) is int:
                    st.append(ops[0])
                if op == 'jmp':
                    continue
            if x in self.im.next:
                st.append(self.im.next[x])
        return False

    def branch(self, b, pc, cc, target, nxt):
        lo, hi = self.ctx.range(b)
        if lo == hi:
            return lo
        if self.inductive is not None:
            r1, r0 = self.reaches(target, pc), self.reaches(nxt, pc)
            if r1 != r0:
                from . import induct
                stay = 1 if r1 else 0
                f = self.flags
                shape = None if f is None else (f[0], f[-1])

                def cond(S):
                    self.unpack_state(S, shape)
                    return self.cond(cc), stay, S

                def body(S):
                    self.unpack_state(S, shape)
                    b2 = self.run(target if stay else nxt, {pc})
                    if b2 != pc:
                        raise Undecided('return from a loop')
                    f2 = self.flags
                    if (None if f2 is None else (f2[0], f2[-1])) != shape:
                        raise Undecided('flags change in a loop')
                    return self.pack()
                S = induct.run_loop(self, self.pack(), cond, body, self.inductive, [64] * 16 + [32] * 128 + [None] * 67)
                self.unpack_state(S, shape)
                return 1 - stay
        raise Undecided('data-dependent branch at %x' % pc)

    def step(self, op, ops, target, text):
        c = self.ctx
        f = getattr(self, 'i_' + op, None)
        if f is not None:
            return f(ops, target)
        raise Undecided('instruction ' + text)

    # ------------------------------------------------------------ integer instructions
    def i_nop(self, ops, t):
        pass

    def i_endbr64(self, ops, t):
        pass

    def i_vzeroupper(self, ops, t):
        for i in range(16):
            if self.v[i] is not None:
                self.v[i] = self.v[i][:4] + [0] * 4

    def i_xchg(self, ops, t):
        if ops[0] == ops[1]:
            return
        a, b = self.get(ops[0], t), self.get(ops[1], t)
        self.put(ops[0], b, t)
        self.put(ops[1], a, t)

    def i_mov(self, ops, t):
        v = self.get(ops[1], t, (self.width(ops)) // 8)
        self.put(ops[0], v, t)

    i_movabs = i_mov

    def i_movsxd(self, ops, t):
        v = self.get(ops[1], t)
        self.put(ops[0], self.ctx.signed(v, self.opw(ops[1])))

    def i_movsx(self, ops, t):
        self.i_movsxd(ops, t)

    def i_movzx(self, ops, t):
        v = self.get(ops[1], t)
        self.put(ops[0], self.ctx.unsigned(v, self.opw(ops[1])))

    def opw(self, o):
        return o[2] if o[0] == 'r' else o[1] * 8

    def i_lea(self, ops, t):
        o = ops[1]
        c = self.ctx
        if o[2] == 'rip':
            self.put(ops[0], self.addr(o, t))
            return
        b = self.regs[o[2]] if o[2] else 0
        i = self.regs[o[3]] if o[3] else 0
        if b is None or i is None:
            raise Refuted('undefined register in lea')
        if isinstance(i, Ptr) and o[4] == 1 and not isinstance(b, Ptr):
            b, i = i, b
        if isinstance(i, Ptr):
            raise Undecided('lea of pointer index')
        off = c.add(c.mulc(self.norm64(i), o[4]), o[5])
        if isinstance(b, Ptr):
            self.put(ops[0], Ptr(b.r, c.add(b.o, off)))
        else:
            self.put(ops[0], c.add(b, off))

    def arith(self, ops, t, sign):
        c = self.ctx
        N = self.width(ops)
        x, y = self.get(ops[0], t), self.get(ops[1], t, N // 8)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if sign < 0 and x.r is y.r:
                r = c.sub(x.o, y.o)
            else:
                raise Undecided('pointer sum')
        elif isinstance(x, Ptr):
            y = self.norm64(y)
            r = Ptr(x.r, c.add(x.o, c.mulc(y, sign)))
        elif isinstance(y, Ptr):
            if sign < 0:
                raise Undecided('int - pointer')
            r = Ptr(y.r, c.add(y.o, self.norm64(x)))
        else:
            r = c.add(x, c.mulc(y, sign))
            if type(r) is not int:
                r = c.unsigned(r, N)
        if sign < 0:
            self.flags = ('sub', x, y, N)
        elif isinstance(r, Ptr):
            self.flags = None
        else:
            self.flags = ('logicnc', r, N)
        self.put(ops[0], r, t)

    def i_add(self, ops, t):
        self.arith(ops, t, 1)

    def i_sub(self, ops, t):
        self.arith(ops, t, -1)

    def i_cmp(self, ops, t):
        N = self.width(ops)
        self.flags = ('sub', self.get(ops[0], t), self.get(ops[1], t, N // 8), N)

    def i_test(self, ops, t):
        N = self.width(ops)
        x, y = self.get(ops[0], t), self.get(ops[1], t)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            raise Undecided('test of pointer')
        self.flags = ('logic', self.ctx.bit2('and', x, y, N), N)

    def logic(self, name, ops, t):
        N = self.width(ops)
        if name == 'xor' and ops[0] == ops[1]:
            self.flags = ('logic', 0, N)
            self.put(ops[0], 0, t)
            return
        x, y = self.get(ops[0], t), self.get(ops[1], t)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            raise Undecided('bit operation on pointer')
        r = self.ctx.bit2(name, x, y, N)
        r = self.ctx.unsigned(r, N)
        self.flags = ('logic', r, N)
        self.put(ops[0], r, t)

    def i_and(self, ops, t):
        self.logic('and', ops, t)

    def i_or(self, ops, t):
        self.logic('or', ops, t)

    def i_xor(self, ops, t):
        self.logic('xor', ops, t)

    def i_not(self, ops, t):
        N = self.width(ops)
        self.put(ops[0], self.ctx.sub(-1, self.get(ops[0], t)), t)

    def i_neg(self, ops, t):
        N = self.width(ops)
        x = self.get(ops[0], t)
        self.flags = ('sub', 0, x, N)
        self.put(ops[0], self.ctx.unsigned(self.ctx.neg(x), N), t)

    def shift(self, ops, t, kind):
        c = self.ctx
        N = self.width(ops[:1])
        k = 1 if len(ops) < 2 else self.get(ops[1], t)
        if type(k) is not int:
            raise Undecided('symbolic shift')
        k &= 63 if N == 64 else 31
        x = self.get(ops[0], t)
        if isinstance(x, Ptr):
            raise Undecided('shift of pointer')
        if kind == 'shl':
            r = c.unsigned(c.mulc(x, 1 << k), N)
        elif kind == 'shr':
            r = c.floordiv(c.unsigned(x, N), 1 << k)
        else:
            r = c.unsigned(c.floordiv(c.signed(x, N), 1 << k), N)
        # carry flag: last bit shifted out (only meaningful tests: zero flag)
        self.flags = ('shift', r, N)
        if k == 0:
            self.flags = None
        self.put(ops[0], r, t)

    def i_shl(self, ops, t):
        self.shift(ops, t, 'shl')

    def i_shr(self, ops, t):
        self.shift(ops, t, 'shr')

    def i_sar(self, ops, t):
        self.shift(ops, t, 'sar')

    i_sal = i_shl

    def incdec(self, ops, t, d):
        N = self.width(ops)
        x = self.get(ops[0], t)
        c = self.ctx
        if isinstance(x, Ptr):
            self.put(ops[0], Ptr(x.r, c.add(x.o, d)), t)
            self.flags = None
            return
        r = c.unsigned(c.add(x, d), N)
        self.flags = ('shift', r, N)
        self.put(ops[0], r, t)

    def i_inc(self, ops, t):
        self.incdec(ops, t, 1)

    def i_dec(self, ops, t):
        self.incdec(ops, t, -1)

    def i_imul(self, ops, t):
        c = self.ctx
        N = self.width(ops)
        if len(ops) == 1:
            raise Undecided('one-operand imul')
        x, y = (self.get(ops[-2], t), self.get(ops[-1], t))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            raise Undecided('imul of pointer')
        self.flags = None
        self.put(ops[0], c.mul(c.signed(x, N), c.signed(y, N)), t)

    def i_push(self, ops, t):
        v = self.get(ops[0], t)
        sp = self.regs['rsp']
        sp = Ptr(sp.r, sp.o - 8)
        self.regs['rsp'] = sp
        if not 0 <= sp.o < 64 * 8:
            raise Undecided('stack depth')
        self.stack.cells[sp.o // 8] = v

    def i_pop(self, ops, t):
        sp = self.regs['rsp']
        if not 0 <= sp.o < 64 * 8:
            self.obl.fail('abi', 'pop of the caller frame')
            raise Refuted('stack')
        v = self.stack.cells[sp.o // 8]
        if v is None:
            raise Refuted('pop of an undefined value')
        self.regs['rsp'] = Ptr(sp.r, sp.o + 8)
        self.put(ops[0], v, t)

    def i_cpuid(self, ops, t):
        h = self.special.get('cpuid')
        if h is None:
            raise Undecided('cpuid')
        h(self)

    def i_xgetbv(self, ops, t):
        h = self.special.get('xgetbv')
        if h is None:
            raise Undecided('xgetbv')
        h(self)

    # ------------------------------------------------------------ vector instructions
    def i_vmovdqu(self, ops, t):
        if ops[0][0] == 'm':
            lanes = self.vget(ops[1], t)
            n = (ops[0][1] or ops[1][2]) // 4
            self.vput(ops[0], lanes[:n], t)
        else:
            v = self.vget(ops[1], t)
            if ops[0][2] == 16:
                v = list(v[:4])
            self.vput(ops[0], v)

    def i_vmovdqa(self, ops, t):
        for o in ops:
            if o[0] == 'm':
                p = self.addr(o, t)
                if p.r.name == '.data':
                    base = [a for a, n, r in self.datareg if r is p.r][0]
                    self.obl.check(type(p.o) is int and (base + p.o) % o[1] == 0, 'memory', 'aligned access of misaligned constant')
                else:
                    self.obl.fail('memory', 'aligned vector access of %s, whose alignment is not guaranteed' % p.r.name)
        self.i_vmovdqu(ops, t)

    i_vmovups = i_vmovdqu
    i_vlddqu = i_vmovdqu
    i_vmovaps = i_vmovdqa

    def i_vmovd(self, ops, t):
        if ops[0][0] == 'v':
            self.vput(ops[0], [self.lane(self.get(ops[1], t, 4)), 0, 0, 0])
        else:
            self.put(ops[0], self.ctx.unsigned(self.vget(ops[1])[0], 32), t)

    def i_vmovq(self, ops, t):
        if ops[0][0] == 'v':
            if ops[1][0] == 'v':
                l = self.vget(ops[1])
                self.vput(ops[0], [l[0], l[1], 0, 0])
                return
            if ops[1][0] == 'm':
                l = self.load_units(self.addr(ops[1], t), 8, 4)
                self.vput(ops[0], l + [0, 0])
                return
            v = self.get(ops[1], t, 8)
            if isinstance(v, Ptr):
                raise Undecided('pointer in vector')
            self.vput(ops[0], [self.lane(v), self.ctx.floordiv(v, 1 << 32), 0, 0])
        else:
            l = self.vget(ops[1])
            self.put(ops[0], self.q(l, 0), t)

    def v3(self, ops, t, f):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        n = ops[0][2] // 4
        self.vput(ops[0], [f(a[i], b[i]) for i in range(n)])

    def i_vpaddd(self, ops, t):
        c = self.ctx
        ac = self.ac
        self.v3(ops, t, lambda x, y: self.lookup(self.lane(c.add(ac(x), ac(y)))))

    def i_vpsubd(self, ops, t):
        c = self.ctx
        ac = self.ac
        self.v3(ops, t, lambda x, y: self.lookup(self.lane(c.sub(ac(x), ac(y)))))

    def i_vpmulld(self, ops, t):
        c = self.ctx
        self.v3(ops, t, lambda x, y: self.lane(c.mul(c.signed(x, 32), c.signed(y, 32))))

    def bitv(self, name, ops, t):
        c = self.ctx
        if name == 'xor' and ops[1] == ops[2]:
            self.vput(ops[0], [0] * (ops[0][2] // 4))
            return
        self.v3(ops, t, lambda x, y: self.lane(c.bit2(name, x, y, 32)) if type(x) is int or type(y) is int
                else self.lane(c.bit2(name, c.signed(x, 32), c.signed(y, 32), 32)))

    def i_vpand(self, ops, t):
        self.bitv('and', ops, t)

    def i_vpor(self, ops, t):
        self.bitv('or', ops, t)

    def i_vpxor(self, ops, t):
        self.bitv('xor', ops, t)

    def i_vpandn(self, ops, t):
        c = self.ctx
        self.v3(ops, t, lambda x, y: self.lane(c.bit2('and', c.sub(-1, x), y, 32)))

    def i_vpcmpgtd(self, ops, t):
        c = self.ctx
        self.v3(ops, t, lambda x, y: c.neg(c.isneg(c.sub(c.signed(y, 32), c.signed(x, 32)))))

    def i_vpcmpeqd(self, ops, t):
        c = self.ctx
        if ops[1] == ops[2]:
            self.vput(ops[0], [-1] * (ops[0][2] // 4))
            return
        self.v3(ops, t, lambda x, y: c.neg(c.iszero(c.sub(c.signed(x, 32), c.signed(y, 32)))))

    def minmax(self, ops, t, mx):
        c = self.ctx

        def f(x, y):
            x, y = c.signed(x, 32), c.signed(y, 32)
            b = c.isneg(c.sub(x, y))
            return c.ite(b, y, x) if mx else c.ite(b, x, y)
        self.v3(ops, t, f)

    def i_vpmaxsd(self, ops, t):
        self.minmax(ops, t, True)

    def i_vpminsd(self, ops, t):
        self.minmax(ops, t, False)

    def i_vpabsd(self, ops, t):
        c = self.ctx
        a = self.vget(ops[1], t)

        def f(x):
            x = c.signed(x, 32)
            return c.ite(c.isneg(x), c.neg(x), x)
        self.vput(ops[0], [f(x) for x in a[:ops[0][2] // 4]])

    def simm(self, ops, t):
        k = ops[2]
        if k[0] != 'i':
            raise Undecided('vector shift by register')
        return k[1]

    def i_vpslld(self, ops, t):
        k = self.simm(ops, t)
        c = self.ctx
        a = self.vget(ops[1], t)
        self.vput(ops[0], [0 if k > 31 else self.lane(c.mulc(x, 1 << k)) for x in a])

    def i_vpsrld(self, ops, t):
        k = self.simm(ops, t)
        c = self.ctx
        a = self.vget(ops[1], t)
        self.vput(ops[0], [0 if k > 31 else c.floordiv(c.unsigned(x, 32), 1 << k) for x in a])

    def i_vpsrad(self, ops, t):
        k = min(self.simm(ops, t), 31)
        c = self.ctx
        a = self.vget(ops[1], t)
        self.vput(ops[0], [c.floordiv(c.signed(x, 32), 1 << k) for x in a])

    def q1(self, ops, t, f):
        a = self.vget(ops[1], t)
        out = []
        for i in range(len(a) // 2):
            out += self.split(f(self.q(a, i)))
        self.vput(ops[0], out)

    def i_vpsrlq(self, ops, t):
        k = self.simm(ops, t)
        c = self.ctx
        self.q1(ops, t, lambda z: 0 if k > 63 else c.floordiv(c.unsigned(z, 64), 1 << k))

    def i_vpsllq(self, ops, t):
        k = self.simm(ops, t)
        c = self.ctx
        self.q1(ops, t, lambda z: 0 if k > 63 else c.mulc(z, 1 << k))

    def q2(self, ops, t, f):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        out = []
        for i in range(ops[0][2] // 8):
            out += self.split(f(a, b, i))
        self.vput(ops[0], out)

    def i_vpmuldq(self, ops, t):
        c = self.ctx
        self.q2(ops, t, lambda a, b, i: c.mul(c.signed(a[2 * i], 32), c.signed(b[2 * i], 32)))

    def i_vpmuludq(self, ops, t):
        c = self.ctx
        self.q2(ops, t, lambda a, b, i: c.mul(c.unsigned(a[2 * i], 32), c.unsigned(b[2 * i], 32)))

    def i_vpaddq(self, ops, t):
        c = self.ctx
        self.q2(ops, t, lambda a, b, i: c.signed(c.add(self.q(a, i), self.q(b, i)), 64))

    def i_vpsubq(self, ops, t):
        c = self.ctx
        self.q2(ops, t, lambda a, b, i: c.signed(c.sub(self.q(a, i), self.q(b, i)), 64))

    def i_vpblendd(self, ops, t):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        m = ops[3][1]
        self.vput(ops[0], [b[i] if (m >> i) & 1 else a[i] for i in range(ops[0][2] // 4)])

    def byteshift(self, ops, t, left):
        k = ops[2][1]
        a = self.vget(ops[1], t)
        if k % 4:
            raise Undecided('byte shift by %d' % k)
        k = min(k // 4, 4)
        out = []
        for h in range(0, len(a), 4):
            l = a[h:h + 4]
            out += ([0] * k + l[:4 - k]) if left else (l[k:] + [0] * k)
        self.vput(ops[0], out)

    def i_vpslldq(self, ops, t):
        self.byteshift(ops, t, True)

    def i_vpsrldq(self, ops, t):
        self.byteshift(ops, t, False)

    def i_vpshufd(self, ops, t):
        a = self.vget(ops[1], t)
        m = ops[2][1]
        out = []
        for h in range(0, len(a), 4):
            out += [a[h + ((m >> (2 * j)) & 3)] for j in range(4)]
        self.vput(ops[0], out)

    def i_vshufps(self, ops, t):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        m = ops[3][1]
        out = []
        for h in range(0, ops[0][2] // 4, 4):
            out += [a[h + (m & 3)], a[h + ((m >> 2) & 3)], b[h + ((m >> 4) & 3)], b[h + ((m >> 6) & 3)]]
        self.vput(ops[0], out)

    def i_vshufpd(self, ops, t):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        m = ops[3][1]
        out = []
        bit = 0
        for h in range(0, ops[0][2] // 4, 4):
            i = (m >> bit) & 1
            j = (m >> (bit + 1)) & 1
            out += a[h + 2 * i:h + 2 * i + 2] + b[h + 2 * j:h + 2 * j + 2]
            bit += 2
        self.vput(ops[0], out)

    def i_vperm2i128(self, ops, t):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        m = ops[3][1]
        src = [a[:4], a[4:], b[:4], b[4:]]
        out = []
        for s in (m & 15, (m >> 4) & 15):
            out += [0] * 4 if s & 8 else src[s & 3]
        self.vput(ops[0], out)

    i_vperm2f128 = i_vperm2i128

    def i_vpermd(self, ops, t):
        idx, a = self.vget(ops[1], t), self.vget(ops[2], t)
        out = []
        for i in idx:
            if type(i) is not int:
                raise Undecided('symbolic permutation')
            out.append(a[i & 7])
        self.vput(ops[0], out)

    i_vpermps = i_vpermd

    def i_vpermq(self, ops, t):
        a = self.vget(ops[1], t)
        m = ops[2][1]
        out = []
        for j in range(4):
            s = (m >> (2 * j)) & 3
            out += a[2 * s:2 * s + 2]
        self.vput(ops[0], out)

    i_vpermpd = i_vpermq

    def unpack(self, ops, t, hi, q):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        out = []
        for h in range(0, ops[0][2] // 4, 4):
            if q:
                s = h + (2 if hi else 0)
                out += a[s:s + 2] + b[s:s + 2]
            else:
                s = h + (2 if hi else 0)
                out += [a[s], b[s], a[s + 1], b[s + 1]]
        self.vput(ops[0], out)

    def i_vpunpckldq(self, ops, t):
        self.unpack(ops, t, False, False)

    def i_vpunpckhdq(self, ops, t):
        self.unpack(ops, t, True, False)

    def i_vpunpcklqdq(self, ops, t):
        self.unpack(ops, t, False, True)

    def i_vpunpckhqdq(self, ops, t):
        self.unpack(ops, t, True, True)

    i_vunpcklps = i_vpunpckldq
    i_vunpckhps = i_vpunpckhdq
    i_vunpcklpd = i_vpunpcklqdq
    i_vunpckhpd = i_vpunpckhqdq

    def i_vextracti128(self, ops, t):
        a = self.vget(ops[1], t)
        k = ops[2][1] & 1
        self.vput(ops[0], a[4 * k:4 * k + 4], t)

    def i_vinserti128(self, ops, t):
        a, b = self.vget(ops[1], t), self.vget(ops[2], t)
        k = ops[3][1] & 1
        out = list(a)
        out[4 * k:4 * k + 4] = b[:4]
        self.vput(ops[0], out)

    def words(self, o, t, n):
        if o[0] == 'm':
            return self.load_units(self.addr(o, t), 2 * n, 2)
        l = self.vget(o)
        c = self.ctx
        out = []
        for i in range((n + 1) // 2):
            out += [l[i], c.floordiv(l[i], 1 << 16)]
        return out[:n]

    def i_vpmovsxwd(self, ops, t):
        n = ops[0][2] // 4
        c = self.ctx
        self.vput(ops[0], [c.signed(w, 16) for w in self.words(ops[1], t, n)])

    def i_vpmovzxwd(self, ops, t):
        n = ops[0][2] // 4
        c = self.ctx
        self.vput(ops[0], [c.unsigned(w, 16) for w in self.words(ops[1], t, n)])

    def i_vpmovsxwq(self, ops, t):
        n = ops[0][2] // 8
        c = self.ctx
        out = []
        for w in self.words(ops[1], t, n):
            w = c.signed(w, 16)
            out += [w, c.floordiv(w, 1 << 32)]
        self.vput(ops[0], out)

    def i_vpmovsxdq(self, ops, t):
        n = ops[0][2] // 8
        c = self.ctx
        l = self.load_units(self.addr(ops[1], t), 4 * n, 4) if ops[1][0] == 'm' else self.vget(ops[1])[:n]
        out = []
        for w in l:
            w = c.signed(w, 32)
            out += [w, c.floordiv(w, 1 << 32)]
        self.vput(ops[0], out)

    def i_vpbroadcastw(self, ops, t):
        w = self.words(ops[1], t, 1)[0]
        c = self.ctx
        x = c.add(c.unsigned(w, 16), c.mulc(c.signed(w, 16), 1 << 16))
        self.vput(ops[0], [x] * (ops[0][2] // 4))

    def i_vpbroadcastd(self, ops, t):
        x = self.load_units(self.addr(ops[1], t), 4, 4)[0] if ops[1][0] == 'm' else self.vget(ops[1])[0]
        self.vput(ops[0], [x] * (ops[0][2] // 4))

    def i_vpbroadcastq(self, ops, t):
        l = self.load_units(self.addr(ops[1], t), 8, 4) if ops[1][0] == 'm' else self.vget(ops[1])[:2]
        self.vput(ops[0], list(l) * (ops[0][2] // 8))
