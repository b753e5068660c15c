"""Symbolic executor / VC generator for LLVM IR functions of the real C sources."""
import time
from . import par
from .terms import Lin, Ctx, Undecided, Refuted
from .irparse import alignof, sizeof, field_offset, parse_const, P, IRError


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __repr__(self):
        return '&%s+%r' % (self.r.name if self.r else 'null', self.o)


class FnPtr:
    def __init__(self, name):
        self.name = name


class Maybe:
    """A value that is uninitialised or unknown on some paths; reading it is undecided."""
    def __repr__(self):
        return '<maybe>'


MAYBE = Maybe()
NULL = Ptr(None, 0)
UNINIT = None


class Region:
    """Byte range divided in cells of `es` bytes; a cell holds int/Lin/Ptr or None (uninitialised)."""
    __slots__ = ('name', 'es', 'cells', 'writable', 'written', 'wlog', 'track', 'reads', 'hook', 'cutting', 'freed')

    def __init__(self, name, es, cells, writable=True):
        self.name = name
        self.es = es
        self.cells = cells
        self.writable = writable
        self.written = False
        self.wlog = None
        self.reads = None
        self.hook = None
        self.cutting = False
        self.freed = False


class Obl:
    """Obligation accounting."""

    def __init__(self):
        self.count = {}
        self.fails = []

    def ok(self, kind, n=1):
        self.count[kind] = self.count.get(kind, 0) + n

    def fail(self, kind, msg, **kw):
        self.count[kind] = self.count.get(kind, 0) + 1
        if len(self.fails) < 200:
            d = dict(kind=kind, msg=msg)
            d.update(kw)
            self.fails.append(d)

    def check(self, cond, kind, msg, **kw):
        if cond:
            self.count[kind] = self.count.get(kind, 0) + 1
        else:
            self.fail(kind, msg, **kw)

    def total(self):
        return sum(self.count.values())

    def merge(self, o):
        for k, v in o.count.items():
            self.count[k] = self.count.get(k, 0) + v
        self.fails += o.fails


PURE = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'icmp', 'getelementptr', 'select', 'bitcast'}


def drop_unused(f):
    """Reads of local variables and computations whose result is not used: statements without an effect."""
    while True:
        used = set()

        def walk(v):
            if isinstance(v, (tuple, list)):
                if len(v) == 2 and v[0] == 'r' and isinstance(v[1], str):
                    used.add(v[1])
                for x in v:
                    if isinstance(x, (tuple, list)):
                        walk(x)
        for lb in f.order:
            for ins in f.blocks[lb]:
                walk(ins.a)
                walk(ins.x)
        n = 0
        for lb in f.order:
            keep = []
            for ins in f.blocks[lb]:
                if ins.res is not None and ins.res not in used and \
                        (ins.op in PURE or (ins.op == 'load' and ins.a[0][0] == 'r' and ins.a[0][1] in f.promoted)):
                    n += 1
                else:
                    keep.append(ins)
            f.blocks[lb] = keep
        if not n:
            return


def prepare(f):
    """Register numbering and promotion of non-escaping scalar allocas."""
    if f.slots is not None:
        return
    slots = {}
    for ty, r in f.params:
        slots[r] = len(slots)
    allocas = {}
    for lb in f.order:
        for ins in f.blocks[lb]:
            if ins.res is not None and ins.res not in slots:
                slots[ins.res] = len(slots)
            if ins.op == 'alloca' and (isinstance(ins.ty, int) or ins.ty == 'ptr') and ins.x == 1:
                allocas[ins.res] = ins.ty

    def uses(v, bad):
        if isinstance(v, tuple) and v and v[0] == 'r' and v[1] in allocas:
            bad.add(v[1])
    bad = set()
    for lb in f.order:
        for ins in f.blocks[lb]:
            if ins.op == 'load':
                if isinstance(ins.a[0], tuple) and ins.a[0][0] == 'r' and ins.a[0][1] in allocas:
                    if allocas[ins.a[0][1]] != ins.ty:
                        bad.add(ins.a[0][1])
                continue
            if ins.op == 'store':
                uses(ins.a[0], bad)
                if isinstance(ins.a[1], tuple) and ins.a[1][0] == 'r' and ins.a[1][1] in allocas:
                    if allocas[ins.a[1][1]] != ins.ty:
                        bad.add(ins.a[1][1])
                continue
            for v in ins.a:
                if ins.op == 'call':
                    uses(v[1], bad)
                else:
                    uses(v, bad)
            if ins.op == 'phi':
                for v, _ in ins.x:
                    uses(v, bad)
            if ins.op == 'getelementptr':
                for _, v in ins.x:
                    uses(v, bad)
    f.promoted = {r for r in allocas if r not in bad}
    drop_unused(f)
    f.slots = slots
    f.allocaty = allocas
    f.nslots = len(slots)
    # decoded code per block
    f.code = {}
    for lb in f.order:
        f.code[lb] = f.blocks[lb]
    f.ipdom = None


def succs(f, lb):
    ins = f.blocks[lb][-1]
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [l for _, l in ins.x[1:]]
    return []


def ipdoms(f):
    if f.ipdom is not None:
        return f.ipdom
    EXIT = '#exit'
    nodes = f.order + [EXIT]
    sc = {lb: (succs(f, lb) or [EXIT]) for lb in f.order}
    # blocks ending in unreachable do not constrain post-dominance
    allset = set(nodes)
    pd = {n: set(allset) for n in nodes}
    pd[EXIT] = {EXIT}
    changed = True
    while changed:
        changed = False
        for lb in reversed(f.order):
            s = None
            for x in sc[lb]:
                s = set(pd[x]) if s is None else s & pd[x]
            s = (s or set()) | {lb}
            if s != pd[lb]:
                pd[lb] = s
                changed = True
    ip = {}
    for lb in f.order:
        cands = pd[lb] - {lb}
        best = None
        for c in cands:
            if best is None or len(pd[c]) > len(pd[best]):
                best = c
        ip[lb] = best or EXIT
    f.ipdom = ip
    return ip


class Exec:
    def __init__(self, mod, ctx, obl, contracts=None, max_steps=60_000_000, externs=None):
        self.mod = mod
        self.ctx = ctx
        self.obl = obl
        self.contracts = contracts or {}
        self.externs = externs if externs is not None else {}
        self.journal = None
        self.steps = 0
        self.max_steps = max_steps
        self.pathc = []
        self.globals = {}
        self.forks = 0
        self.callstack = []
        self.max_fork_depth = 40
        self.inlined = set()
        self.inductive = None      # list of symbolic regions when loops are summarised
        self.facts = []
        self.trace = []
        self.loops = 0
        self.condstop = None

    # ------------------------------------------------------------ memory
    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            g = self.mod.globals.get(name)
            if g is None:
                if name in self.mod.funcs or name in self.mod.decls:
                    return FnPtr(name)
                raise Undecided('global ' + name)
            ty, init, const = g
            if init is None:
                raise Undecided('external global ' + name)
            items = parse_const(ty, P(list(init)), self.mod)
            szs = {s for _, s, _ in items}
            es = min(szs)
            total = sizeof(ty, self.mod)
            cells = [0] * (total // es)
            for o, s, v in items:
                if isinstance(v, tuple):
                    if v[0] == 'g':
                        v = Ptr(self.global_region(v[1]), v[2])
                    elif v[0] == 'null':
                        v = NULL
                    else:
                        v = 0
                if s != es:
                    raise Undecided('mixed global ' + name)
                cells[o // es] = v
            r = Region('@' + name, es, cells, not const)
            self.globals[name] = r
        return r

    def write_cell(self, r, i, v):
        if self.journal is not None:
            self.journal.append((r, i, r.cells[i]))
        r.cells[i] = v
        r.written = True
        if r.wlog is not None:
            r.wlog.add(i)

    def load(self, p, size, ty, where):
        if not isinstance(p, Ptr):
            raise Undecided('load through non-pointer at ' + where)
        r, o = p.r, p.o
        if r is None:
            self.obl.fail('memory', 'null dereference at ' + where)
            raise Refuted('null dereference')
        if r.hook is not None:
            return r.hook.load(self, r, o, size, where)
        if type(o) is not int:
            raise Undecided('symbolic address at ' + where)
        es = r.es
        if r.freed or o < 0 or o + size > es * len(r.cells):
            self.obl.fail('memory', 'read outside %s (offset %d, size %d) at %s' % (r.name, o, size, where), region=r.name, off=o)
            raise Refuted('out-of-bounds read of %s' % r.name)
        self.obl.ok('memory')
        if size == es and o % es == 0:
            v = r.cells[o // es]
            if v is UNINIT:
                self.obl.fail('memory', 'read of uninitialised %s at %s' % (r.name, where))
                raise Refuted('uninitialised read')
            if v is MAYBE:
                raise Undecided('cell uninitialised on some path')
            return v
        c = self.ctx
        if o % es == 0 and size % es == 0:
            acc = 0
            for j in range(size // es):
                v = r.cells[o // es + j]
                if v is UNINIT or isinstance(v, Ptr):
                    raise Undecided('mixed-size load')
                acc = c.add(acc, c.mulc(c.unsigned(v, 8 * es), 1 << (8 * es * j)))
            return acc
        i0 = o // es
        if (o + size - 1) // es == i0:
            v = r.cells[i0]
            if v is UNINIT or isinstance(v, Ptr):
                raise Undecided('sub-cell load')
            v = c.floordiv(c.unsigned(v, 8 * es), 1 << (8 * (o - i0 * es)))
            return c.unsigned(v, 8 * size)
        raise Undecided('misaligned load at ' + where)

    def store(self, p, size, v, where):
        if not isinstance(p, Ptr):
            raise Undecided('store through non-pointer at ' + where)
        r, o = p.r, p.o
        if r is None:
            self.obl.fail('memory', 'null dereference at ' + where)
            raise Refuted('null dereference')
        if r.hook is not None:
            return r.hook.store(self, r, o, size, v, where)
        if type(o) is not int:
            raise Undecided('symbolic address at ' + where)
        es = r.es
        if r.freed or o < 0 or o + size > es * len(r.cells):
            self.obl.fail('memory', 'write outside %s (offset %d, size %d) at %s' % (r.name, o, size, where), region=r.name, off=o)
            raise Refuted('out-of-bounds write of %s' % r.name)
        if not r.writable:
            self.obl.fail('memory', 'write to read-only %s at %s' % (r.name, where), region=r.name, off=o)
            raise Refuted('write to read-only ' + r.name)
        self.obl.ok('memory')
        if size == es and o % es == 0:
            if r.cutting and type(v) is Lin:
                v = self.ctx.cut(v)
            self.write_cell(r, o // es, v)
            return
        c = self.ctx
        if o % es == 0 and size % es == 0 and not isinstance(v, Ptr):
            n = size // es
            for j in range(n):
                self.write_cell(r, o // es + j, c.signed(c.floordiv(c.unsigned(v, 8 * size), 1 << (8 * es * j)), 8 * es))
            return
        raise Undecided('misaligned store at ' + where)

    # ------------------------------------------------------------ running
    def call(self, name, args):
        if par.PROOF_END is not None and time.time() > par.PROOF_END:
            raise Undecided('the time for proofs is used up')
        h = self.contracts.get(name)
        if h is not None:
            return h(self, args)
        f = self.mod.funcs.get(name)
        if f is None:
            h = self.externs.get(name)
            if h is not None:
                return h(self, args)
            return self.intrinsic(name, args)
        if len(self.callstack) > 60:
            raise Undecided('recursion in ' + name)
        prepare(f)
        self.inlined.add(name)
        env = [None] * f.nslots
        for (ty, r), v in zip(f.params, args):
            if type(ty) is int and isinstance(v, (int, Lin)):
                v = self.ctx.signed(v, ty) if ty > 1 else v
            env[f.slots[r]] = v
        self.callstack.append(name)
        local = []
        save = getattr(self, 'locals', None)
        self.locals = local
        try:
            kind, v = self.run(f, env, f.order[0], None, None)
        finally:
            self.locals = save
            self.callstack.pop()
        for r in local:
            r.freed = True
        return v

    def intrinsic(self, name, args):
        c = self.ctx
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or name.startswith('llvm.memmove'):
            d, s, n = args[0], args[1], args[2]
            if type(n) is not int:
                raise Undecided('symbolic memcpy')
            if n == 0:
                return d
            if s.r is None or d.r is None:
                raise Undecided('memcpy')
            if (s.r.hook is None and d.r.hook is None) and (type(s.o) is not int or type(d.o) is not int):
                raise Undecided('memcpy')
            es = s.r.es
            if s.r.hook is not None or d.r.hook is not None:
                if es != d.r.es or n % es:
                    raise Undecided('memcpy cells')
                vals = [self.load(Ptr(s.r, c.add(s.o, j)), es, 8 * es, name) for j in range(0, n, es)]
                for j, v in enumerate(vals):
                    self.store(Ptr(d.r, c.add(d.o, j * es)), es, v, name)
                return d
            if es != d.r.es or n % es or s.o % es or d.o % es:
                raise Undecided('memcpy cells')
            if s.o < 0 or s.o + n > es * len(s.r.cells) or d.o < 0 or d.o + n > es * len(d.r.cells):
                self.obl.fail('memory', 'memcpy out of bounds')
                raise Refuted('memcpy')
            if not d.r.writable:
                self.obl.fail('memory', 'memcpy to read-only ' + d.r.name)
                raise Refuted('memcpy')
            vals = s.r.cells[s.o // es:(s.o + n) // es]
            for j, v in enumerate(vals):
                self.write_cell(d.r, d.o // es + j, v)
            return d
        if name.startswith('llvm.memset') or name == 'memset':
            d, v, n = args[0], args[1], args[2]
            if type(n) is not int or type(v) is not int or d.r is None:
                raise Undecided('memset')
            es = d.r.es
            if d.r.hook is not None:
                if n % es:
                    raise Undecided('memset')
                for j in range(0, n, es):
                    self.store(Ptr(d.r, c.add(d.o, j)), es, c.signed(sum((v & 255) << (8 * i) for i in range(es)), 8 * es), name)
                return d
            if type(d.o) is not int:
                raise Undecided('memset')
            if n % es or d.o % es:
                raise Undecided('memset')
            if d.o < 0 or d.o + n > es * len(d.r.cells):
                self.obl.fail('memory', 'memset out of bounds')
                raise Refuted('memset')
            if not d.r.writable:
                self.obl.fail('memory', 'memset of read-only ' + d.r.name)
                raise Refuted('memset')
            w = 0
            for _ in range(es):
                w = (w << 8) | (v & 255)
            for j in range(n // es):
                self.write_cell(d.r, d.o // es + j, c.signed(w, 8 * es))
            return d
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'):
            return None
        if name.startswith('llvm.abs'):
            x = args[0]
            return c.ite(c.isneg(x), c.neg(x), x)
        raise Undecided('call to ' + name)

    def val(self, f, env, v):
        if type(v) is int:
            return v
        k = v[0]
        if k == 'r':
            return env[f.slots[v[1]]]
        if k == 'g':
            r = self.global_region(v[1])
            if isinstance(r, FnPtr):
                return r
            return Ptr(r, v[2])
        if k == 'null':
            return NULL
        if k == 'zeroinitializer':
            return 0
        raise Undecided('operand %r' % (v,))

    def run(self, f, env, lb, prev, until):
        """Run from block lb until block `until` (not executed) or a return.
        Returns ('ret', v) or ('at', prev)."""
        slots = f.slots
        promoted = f.promoted
        ctx = self.ctx
        while True:
            if lb == until:
                return 'at', prev
            code = f.code[lb]
            if self.inductive is not None:
                entry_env = list(env)
                entry_prev = prev
            self.steps += len(code)
            if self.steps > self.max_steps:
                raise Undecided('step limit')
            k = 0
            n = len(code)
            # phis in parallel
            if code and code[0].op == 'phi':
                vals = []
                while k < n and code[k].op == 'phi':
                    ins = code[k]
                    for v, l in ins.x:
                        if l == prev:
                            vals.append((slots[ins.res], self.val(f, env, v)))
                            break
                    else:
                        raise Undecided('phi')
                    k += 1
                for s, v in vals:
                    env[s] = v
            nxt = None
            while k < n:
                ins = code[k]
                k += 1
                op = ins.op
                if op == 'load':
                    a = ins.a[0]
                    if a[0] == 'r' and a[1] in promoted:
                        v = env[slots[a[1]]]
                        if v is None:
                            self.obl.fail('memory', 'uninitialised local in %s: %s' % (f.name, ins.line))
                            raise Refuted('uninitialised local')
                        if v is MAYBE:
                            raise Undecided('local uninitialised on some path in ' + f.name)
                        env[slots[ins.res]] = v
                        continue
                    p = env[slots[a[1]]] if a[0] == 'r' else self.val(f, env, a)
                    ty = ins.ty
                    size = (ty + 7) // 8 if type(ty) is int else sizeof(ty, self.mod)
                    v = self.load(p, size, ty, f.name)
                    if type(ty) is int and isinstance(v, Ptr):
                        raise Undecided('pointer as integer')
                    env[slots[ins.res]] = v
                elif op == 'store':
                    v, a = ins.a
                    if type(v) is not int:
                        v = env[slots[v[1]]] if v[0] == 'r' else self.val(f, env, v)
                    if a[0] == 'r' and a[1] in promoted:
                        env[slots[a[1]]] = v
                        continue
                    p = env[slots[a[1]]] if a[0] == 'r' else self.val(f, env, a)
                    ty = ins.ty
                    size = (ty + 7) // 8 if type(ty) is int else sizeof(ty, self.mod)
                    self.store(p, size, v, f.name)
                elif op == 'br':
                    if not ins.a:
                        nxt = ins.x[0]
                        break
                    c = self.val(f, env, ins.a[0])
                    if self.condstop is not None and self.condstop == (f, lb):
                        return 'cond', c
                    if type(c) is not int:
                        c = self.decide(c)
                    if type(c) is int:
                        nxt = ins.x[0] if c else ins.x[1]
                        break
                    if self.inductive is not None:
                        ex = self.loop_exit(f, lb, ins.x)
                        if ex is not None:
                            stay, out = ex
                            self.inductive_loop(f, env, entry_env, entry_prev, lb, ins.x, stay)
                            prev, lb = lb, ins.x[out]
                            nxt = None
                            break
                    r = self.fork(f, env, lb, c, ins.x, until)
                    if r[0] == 'ret':
                        return r
                    # continue at join
                    lb, prev = r[1], r[2]
                    nxt = None
                    break
                elif op == 'ret':
                    return 'ret', (self.val(f, env, ins.a[0]) if ins.a else None)
                elif op == 'switch':
                    v = self.val(f, env, ins.a[0])
                    if type(v) is not int:
                        raise Undecided('symbolic switch')
                    nxt = ins.x[0]
                    M = (1 << ins.ty) - 1
                    for cv, l in ins.x[1:]:
                        if (cv ^ v) & M == 0:
                            nxt = l
                    break
                elif op == 'unreachable':
                    raise Refuted('unreachable code reached in ' + f.name)
                else:
                    self.step(f, env, ins, op)
            else:
                raise Undecided('block falls through')
            if nxt is not None:
                prev, lb = lb, nxt

    def loop_exit(self, f, lb, targets):
        """(index of the successor that stays in the loop, index of the exit) or None."""
        def reaches(x):
            seen = set()
            st = [x]
            while st:
                y = st.pop()
                if y == lb:
                    return True
                if y in seen:
                    continue
                seen.add(y)
                st += succs(f, y)
            return False
        r0, r1 = reaches(targets[0]), reaches(targets[1])
        if r0 == r1:
            return None
        return (0, 1) if r0 else (1, 0)

    def inductive_loop(self, f, env, env0, prev0, lb, targets, stay):
        from . import induct
        if any(i.op == 'phi' for i in f.code[lb]):
            raise Undecided('phi in a loop header')
        n = len(env0)

        def cond(S):
            e = list(S)
            self.condstop = (f, lb)
            try:
                r = self.run(f, e, lb, prev0, None)
            finally:
                self.condstop = None
            if r[0] != 'cond':
                raise Undecided('loop header')
            return r[1], (1 if stay == 0 else 0), e

        def body(S):
            e = list(S)
            r = self.run(f, e, targets[stay], lb, lb)
            if r[0] != 'at':
                raise Undecided('return from a loop')
            return e
        bits = [None] * n
        for reg, s in f.slots.items():
            ty = f.allocaty.get(reg)
            if type(ty) is int:
                bits[s] = ty
        # registers other than promoted locals are recomputed in the block
        S = induct.run_loop(self, env0, cond, body, self.inductive, bits)
        env[:] = S

    def decide(self, c):
        """Decide a symbolic condition from the path conditions, if possible."""
        ctx = self.ctx
        lo, hi = ctx.range(c)
        if lo == hi:
            return lo
        kc = ctx.key(c)
        for b, v in self.pathc:
            if ctx.key(b) == kc:
                return v
        if self.pathc and len(c.t) == 1:
            (a, k), = c.t.items()
            if a.kind == 'neg':
                arg = a.args[0]
                for b, v in self.pathc:
                    r = ctx.range_given(arg, b, v)
                    if r is None:
                        continue
                    if r[1] < 0:
                        return c.c + k
                    if r[0] >= 0:
                        return c.c
        return c

    def fork(self, f, env, lb, c, targets, until):
        if len(self.pathc) > self.max_fork_depth:
            raise Undecided('fork depth in ' + f.name)
        self.forks += 1
        ip = ipdoms(f)[lb]
        join = ip if ip != '#exit' else None
        outer = self.journal
        res = []
        for v, tgt in ((1, targets[0]), (0, targets[1])):
            e = list(env)
            self.journal = []
            self.pathc.append((c, v))
            dead = False
            r = None
            try:
                r = self.run(f, e, tgt, lb, join)
            finally:
                self.pathc.pop()
                j = self.journal
                final = {}
                for reg, i, old in j:
                    final[(id(reg), i)] = (reg, i, reg.cells[i])
                for reg, i, old in reversed(j):
                    reg.cells[i] = old
                self.journal = outer
            res.append((r, e, final))
        (r1, e1, f1), (r0, e0, f0) = res
        # memory
        for key in set(f1) | set(f0):
            reg, i, _ = f1.get(key) or f0.get(key)
            v1 = f1[key][2] if key in f1 else reg.cells[i]
            v0 = f0[key][2] if key in f0 else reg.cells[i]
            self.write_cell(reg, i, self.merge(c, v1, v0))
        if r1[0] == 'ret' or r0[0] == 'ret':
            if r1[0] != r0[0]:
                raise Undecided('one-sided return')
            if r1[1] is None:
                return 'ret', None
            return 'ret', self.merge(c, r1[1], r0[1])
        for s in range(len(env)):
            a, b = e1[s], e0[s]
            env[s] = a if a is b else self.merge(c, a, b)
        # phi at the join that distinguish the two predecessors
        p1, p0 = r1[1], r0[1]
        if p1 != p0:
            code = f.code[join]
            k = 0
            merged = []
            while k < len(code) and code[k].op == 'phi':
                ins = code[k]
                vals = {l: v for v, l in ins.x}
                merged.append((f.slots[ins.res], self.merge(c, self.val(f, e1, vals[p1]), self.val(f, e0, vals[p0]))))
                k += 1
            if merged:
                # rewrite: give each phi its merged value through a synthetic predecessor
                for s, v in merged:
                    env[s] = v
                return self._after_phi(f, env, join, k, until)
        return 'at', join, p1

    def _after_phi(self, f, env, join, k, until):
        # synthetic block: the join block without its phis
        key = '%s#nophi' % join
        if key not in f.code:
            f.code[key] = f.code[join][k:]
            ip = ipdoms(f)
            ip[key] = ip[join]
            # phis of successors name `join` as predecessor
            for lb2 in list(f.code):
                for ins in f.code[lb2]:
                    if ins.op == 'phi' and any(l == join for _, l in ins.x) and not any(l == key for _, l in ins.x):
                        ins.x = list(ins.x) + [(v, key) for v, l in ins.x if l == join]
        if join == until:
            raise Undecided('phi at an outer join')
        return 'at', key, None

    def merge(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None or a is MAYBE or b is MAYBE:
            return MAYBE
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return Ptr(a.r, self.ctx.ite(c, a.o, b.o))
            raise Undecided('merge of pointers')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            raise Undecided('merge of function pointers')
        return self.ctx.ite(c, a, b)

    def step(self, f, env, ins, op):
        ctx = self.ctx
        slots = f.slots
        if op == 'add' or op == 'sub' or op == 'mul' or op == 'shl':
            a, b = ins.a
            x = a if type(a) is int else self.val(f, env, a)
            y = b if type(b) is int else self.val(f, env, b)
            N = ins.ty
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
                    env[slots[ins.res]] = ctx.sub(x.o, y.o)
                    return
                if op in ('add', 'sub') and isinstance(x, Ptr) and not isinstance(y, Ptr):
                    env[slots[ins.res]] = Ptr(x.r, ctx.add(x.o, y) if op == 'add' else ctx.sub(x.o, y))
                    return
                raise Undecided('pointer arithmetic')
            if x is None or y is None:
                raise Refuted('uninitialised value used')
            if x is MAYBE or y is MAYBE:
                raise Undecided('value unknown on some path')
            if 'nsw' in ins.flags and op != 'shl':
                if type(x) is not int:
                    x = ctx.signed(x, N)
                if type(y) is not int:
                    y = ctx.signed(y, N)
            if op == 'add':
                v = ctx.add(x, y)
            elif op == 'sub':
                v = ctx.sub(x, y)
            elif op == 'mul':
                v = ctx.mul(x, y)
            else:
                if type(y) is not int:
                    y = self.shift_amount(y, N)
                if not 0 <= y < N:
                    self.obl.fail('overflow', 'shift amount %d in %s' % (y, f.name))
                    raise Refuted('shift amount')
                v = ctx.mulc(x, 1 << y)
            if type(v) is int:
                h = 1 << (N - 1)
                if 'nsw' in ins.flags:
                    # operands in signed view
                    if type(x) is int and type(y) is int:
                        xs, ys = (x + h) % (2 * h) - h, (y + h) % (2 * h) - h
                        w = xs + ys if op == 'add' else xs - ys if op == 'sub' else xs * ys if op == 'mul' else xs << y
                        self.obl.check(-h <= w < h, 'overflow', 'signed overflow in %s: %s' % (f.name, ins.line))
                env[slots[ins.res]] = (v + h) % (2 * h) - h
                return
            if 'nsw' in ins.flags:
                h = 1 << (N - 1)
                lo, hi = ctx.range(v)
                if -h <= lo and hi < h:
                    self.obl.ok('overflow')
                else:
                    r = self.refine(v)
                    if r is not None and -h <= r[0] and r[1] < h:
                        self.obl.ok('overflow')
                    else:
                        self.obl.fail('overflow', 'possible signed overflow in %s: %s, range [%d,%d]' % (f.name, ins.line, lo, hi), term=v, bits=N)
                        v = ctx.signed(v, N)
                env[slots[ins.res]] = v
            else:
                lo, hi = ctx.range(v)
                if lo < -(1 << (N - 1)) or hi >= (1 << N):
                    v = ctx.signed(v, N)
                env[slots[ins.res]] = v
            return
        if op == 'getelementptr':
            base = self.val(f, env, ins.a[0])
            if not isinstance(base, Ptr):
                raise Undecided('gep base')
            off = base.o
            ty = ins.ty
            first = True
            for ity, iv in ins.x:
                i = self.val(f, env, iv)
                if first:
                    i = ctx.signed(i, ity)
                    off = ctx.add(off, ctx.mulc(i, sizeof(ty, self.mod)))
                    first = False
                else:
                    if ty[0] == 'arr':
                        i = ctx.signed(i, ity)
                        ty = ty[2]
                        off = ctx.add(off, ctx.mulc(i, sizeof(ty, self.mod)))
                    else:
                        o, ty = field_offset(ty, i, self.mod)
                        off = ctx.add(off, o)
            env[slots[ins.res]] = Ptr(base.r, off)
            return
        if op == 'zext':
            x = self.val(f, env, ins.a[0])
            env[slots[ins.res]] = ctx.unsigned(x, ins.x) if ins.x > 1 else x
            return
        if op == 'sext':
            x = self.val(f, env, ins.a[0])
            env[slots[ins.res]] = ctx.signed(x, ins.x) if ins.x > 1 else ctx.neg(x)
            return
        if op == 'trunc':
            x = self.val(f, env, ins.a[0])
            N = ins.ty
            if N == 1:
                env[slots[ins.res]] = ctx.unsigned(x, 1)
                return
            env[slots[ins.res]] = ctx.signed(x, N)
            return
        if op == 'icmp':
            env[slots[ins.res]] = self.icmp(ins.x, self.val(f, env, ins.a[0]), self.val(f, env, ins.a[1]), ins.ty)
            return
        if op in ('and', 'or', 'xor'):
            x = self.val(f, env, ins.a[0])
            y = self.val(f, env, ins.a[1])
            if ins.ty == 1:
                if op == 'xor':
                    if type(x) is int:
                        x, y = y, x
                    if type(y) is int:
                        v = ctx.sub(1, x) if y & 1 else x
                    else:
                        v = ctx.sub(ctx.add(x, y), ctx.mulc(ctx.mul(x, y), 2))
                elif op == 'and':
                    v = ctx.mul(x, y)
                else:
                    v = ctx.sub(ctx.add(x, y), ctx.mul(x, y))
            else:
                v = ctx.signed(ctx.bit2(op, x, y, ins.ty), ins.ty)
            env[slots[ins.res]] = v
            return
        if op in ('ashr', 'lshr'):
            x = self.val(f, env, ins.a[0])
            y = self.val(f, env, ins.a[1])
            if type(y) is not int:
                y = self.shift_amount(y, ins.ty)
            if not 0 <= y < ins.ty:
                self.obl.fail('overflow', 'shift amount %d in %s' % (y, f.name))
                raise Refuted('shift amount')
            x = ctx.signed(x, ins.ty) if op == 'ashr' else ctx.unsigned(x, ins.ty)
            env[slots[ins.res]] = ctx.signed(ctx.floordiv(x, 1 << y), ins.ty)
            return
        if op in ('srem', 'sdiv', 'urem', 'udiv'):
            x = self.val(f, env, ins.a[0])
            y = self.val(f, env, ins.a[1])
            N = ins.ty
            if op[0] == 's':
                x, y = ctx.signed(x, N), ctx.signed(y, N)
            else:
                x, y = ctx.unsigned(x, N), ctx.unsigned(y, N)
            if type(y) is not int:
                lo, hi = ctx.range(y)
                if lo != hi:
                    raise Undecided('symbolic divisor in ' + f.name)
                y = lo
            if y == 0:
                self.obl.fail('overflow', 'division by zero in ' + f.name)
                raise Refuted('division by zero')
            self.obl.ok('overflow')
            if op[0] == 's':
                v = ctx.tdiv(x, y) if op == 'sdiv' else ctx.trem(x, y)
                if y == -1:
                    lo, hi = ctx.range(x)
                    if lo == -(1 << (N - 1)):
                        raise Undecided('INT_MIN / -1')
            else:
                q = ctx.floordiv(x, y)
                v = q if op == 'udiv' else ctx.sub(x, ctx.mulc(q, y))
            env[slots[ins.res]] = ctx.signed(v, N)
            return
        if op == 'select':
            c = self.val(f, env, ins.a[0])
            x, y = self.val(f, env, ins.a[1]), self.val(f, env, ins.a[2])
            if type(c) is int:
                env[slots[ins.res]] = x if c else y
            else:
                env[slots[ins.res]] = self.merge(c, x, y)
            return
        if op == 'call':
            args = []
            for aty, v in ins.a:
                if aty == 'metadata':
                    continue
                args.append(self.val(f, env, v))
            if ins.x[0] == 'g':
                name = ins.x[1]
            else:
                fp = self.val(f, env, ins.x)
                if not isinstance(fp, FnPtr):
                    raise Undecided('indirect call')
                name = fp.name
            v = self.call(name, args)
            if ins.res is not None:
                env[slots[ins.res]] = v
            return
        if op == 'alloca':
            if ins.res in f.promoted:
                env[slots[ins.res]] = None
                return
            n = ins.x if type(ins.x) is int else self.val(f, env, ins.x)
            if type(n) is not int:
                raise Undecided('dynamic alloca')
            ty = ins.ty
            e = ty
            while isinstance(e, tuple) and e[0] == 'arr':
                e = e[2]
            es = alignof(e, self.mod) if isinstance(e, tuple) else sizeof(e, self.mod)
            r = Region('%s:%s' % (f.name, ins.res), es, [None] * (n * sizeof(ty, self.mod) // es))
            self.locals.append(r)
            env[slots[ins.res]] = Ptr(r, 0)
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            env[slots[ins.res]] = self.val(f, env, ins.a[0])
            return
        raise Undecided('instruction %s' % ins.line)

    def shift_amount(self, y, N):
        lo, hi = self.ctx.range(y)
        if lo == hi:
            return lo
        raise Undecided('symbolic shift amount')

    def refine(self, v):
        """Range of v under the path conditions."""
        ctx = self.ctx
        r = ctx.range(v)
        for b, val in self.pathc:
            r2 = ctx.range_given(v, b, val)
            if r2 is None:
                return r
            r = (max(r[0], r2[0]), min(r[1], r2[1]))
        return r

    def icmp(self, pred, x, y, ty):
        ctx = self.ctx
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, FnPtr) or isinstance(y, FnPtr) or not isinstance(x, Ptr) or not isinstance(y, Ptr):
                raise Undecided('pointer comparison')
            if x.r is not y.r:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                raise Undecided('comparison of unrelated pointers')
            x, y = x.o, y.o
            if pred[0] == 'u':
                pred = 's' + pred[1:]
            N = 64
        else:
            N = ty
        if pred[0] == 's' or (pred in ('eq', 'ne')):
            if N > 1:
                x, y = ctx.signed(x, N), ctx.signed(y, N)
        elif N > 1:
            x, y = ctx.unsigned(x, N), ctx.unsigned(y, N)
        if type(x) is int and type(y) is int:
            if pred == 'eq':
                return int(x == y)
            if pred == 'ne':
                return int(x != y)
            o = pred[1:]
            return int(x < y if o == 'lt' else x <= y if o == 'le' else x > y if o == 'gt' else x >= y)
        if pred == 'eq':
            return ctx.iszero(ctx.sub(x, y))
        if pred == 'ne':
            return ctx.sub(1, ctx.iszero(ctx.sub(x, y)))
        o = pred[1:]
        if o == 'lt':
            return ctx.isneg(ctx.sub(x, y))
        if o == 'ge':
            return ctx.sub(1, ctx.isneg(ctx.sub(x, y)))
        if o == 'gt':
            return ctx.isneg(ctx.sub(y, x))
        return ctx.sub(1, ctx.isneg(ctx.sub(y, x)))
