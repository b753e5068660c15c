"""Bit-vector verification conditions for LLVM IR: path-wise execution between loop cuts, z3 bit-vectors and arrays.
Used for index-computing code (bit reversal, table construction) where words are read as bit patterns."""
import time, z3
from .terms import Undecided
from .irparse import sizeof
from .irexec import prepare

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class Arr:
    """An array object: es-byte elements, `n` of them (64-bit term), contents a z3 array index -> element."""
    def __init__(self, name, es, n, writable=True):
        self.name, self.es, self.n, self.writable = name, es, n, writable


class Cell:
    def __init__(self, name, bits):
        self.name, self.bits = name, bits


class BPtr:
    def __init__(self, r, o):
        self.r, self.o = r, o                 # o: byte offset, 64-bit term


class St:
    def __init__(self):
        self.mem, self.path, self.touched = {}, [], []

    def copy(self):
        s = St()
        s.mem, s.path, s.touched = dict(self.mem), list(self.path), list(self.touched)
        return s


def bvv(v, n):
    return z3.BitVecVal(v, n)


def fit(x, n):
    """x as an n-bit word (zero extended or cut)."""
    w = x.size()
    return x if w == n else z3.Extract(n - 1, 0, x) if w > n else z3.ZeroExt(n - w, x)


class Machine:
    def __init__(self, mod, contracts=None, timeout=60000, maxunroll=80):
        self.mod, self.contracts, self.timeout, self.maxunroll = mod, contracts or {}, timeout, maxunroll
        self.obls = []
        self.quiet = 0
        self.steps = 0

    # -------------------------------------------------------- solver
    def check(self, hyps, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for h in hyps:
            s.add(h)
        t = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if r == z3.unknown:
            STATS['unknown'] += 1
        return r, (s.model() if r == z3.sat else None)

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st.path + [c], 5000)[0] != z3.unsat

    def holds(self, st, goal, extra=()):
        g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(g):
            return True
        return self.check(st.path + list(extra) + [z3.Not(g)])[0] == z3.unsat

    def oblige(self, st, goal, name, extra=()):
        if self.quiet:
            return
        g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(g):
            self.obls.append((name, True, None))
            return
        r, m = self.check(st.path + list(extra) + [z3.Not(g)])
        d = None
        if r != z3.unsat:
            d = 'refuted' if r == z3.sat else 'unknown'
            if m is not None:
                d += ': ' + ', '.join('%s=%s' % (x.name(), m[x]) for x in m.decls() if x.arity() == 0 and z3.is_bv_value(m[x]))[:400]
        self.obls.append((name, r == z3.unsat, d))

    # -------------------------------------------------------- memory
    def index(self, st, p, size, what, where):
        r = p.r
        if not isinstance(r, Arr):
            raise Undecided('access through %s' % type(r).__name__)
        if size != r.es:
            raise Undecided('access of another size in ' + where)
        i = z3.simplify(z3.LShR(p.o, bvv(r.es.bit_length() - 1, 64)))
        self.oblige(st, z3.And(z3.ULT(i, r.n), p.o & (r.es - 1) == 0), '%s inside %s in %s' % (what, r.name, where))
        if not self.quiet:
            st.path.append(z3.ULT(i, r.n))
        st.touched.append((r, i))
        return i

    def load(self, st, p, ty, where):
        if isinstance(p.r, Cell):
            v = st.mem.get(p.r)
            if v is None:
                self.obls.append(('no read of uninitialised %s in %s' % (p.r.name, where), False, 'refuted'))
                raise Undecided('uninitialised')
            if ty != 'ptr' and not (z3.is_bool(v) and ty == 1 or z3.is_bv(v) and v.size() == ty):
                raise Undecided('access of another size in ' + where)
            return v
        i = self.index(st, p, sizeof(ty, self.mod), 'read', where)
        return z3.Select(st.mem[p.r], i)

    def store(self, st, p, ty, v, where):
        if isinstance(p.r, Cell):
            if ty != 'ptr' and ty != p.r.bits:
                raise Undecided('access of another size in ' + where)
            st.mem[p.r] = v
            return
        i = self.index(st, p, sizeof(ty, self.mod), 'write', where)
        if not p.r.writable and not self.quiet:
            self.obls.append(('%s is not modified by %s' % (p.r.name, where), False, 'refuted'))
        st.mem[p.r] = z3.Store(st.mem[p.r], i, v)

    # -------------------------------------------------------- running
    def val(self, env, v, ty):
        if type(v) is int:
            return z3.BoolVal(bool(v)) if ty == 1 else bvv(v, ty)
        if v[0] == 'r':
            return env[v[1]]
        if v[0] == 'g':
            r = self.globals(v[1])
            return BPtr(r, bvv(v[2], 64))
        raise Undecided('operand %r' % (v,))

    def globals(self, name):
        raise Undecided('global ' + name)

    def function(self, st, name, args):
        """All results of a call: list of (state, value)."""
        h = self.contracts.get(name)
        if h is not None:
            return h(self, st, args)
        f = self.mod.funcs.get(name)
        if f is None:
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
                return [(st, None)]
            raise Undecided('call to ' + name)
        env = self.enter(f, args)
        return [(s, x) for k, s, x, e in self.run(f, env, st, f.order[0], None, ())]

    def enter(self, f, args):
        prepare(f)
        return {r: a for (ty, r), a in zip(f.params, args)}

    def run(self, f, env, st, lb, prev, cuts, first=True):
        """Execute from block lb until a return or a block in cuts.  -> [(label or 'ret', state, value or prev, env)]"""
        out = []
        work = [(env, st, lb, 0, prev, first, {})]
        while work:
            env, st, lb, k, prev, first, seen = work.pop()
            while True:
                if k == 0:
                    if lb in cuts and not first:
                        out.append((lb, st, prev, env))
                        break
                    first = False
                    seen = dict(seen)
                    seen[lb] = seen.get(lb, 0) + 1
                    if seen[lb] > self.maxunroll:
                        raise Undecided('loop in %s not bounded by %d' % (f.name, self.maxunroll))
                self.steps += 1
                if self.steps > 400000:
                    raise Undecided('step limit')
                ins = f.blocks[lb][k]
                op = ins.op
                if op == 'phi':
                    vals = []
                    j = k
                    while f.blocks[lb][j].op == 'phi':
                        q = f.blocks[lb][j]
                        vals.append((q.res, next(self.val(env, v, q.ty) for v, l in q.x if l == prev)))
                        j += 1
                    env = dict(env)
                    env.update(vals)
                    k = j
                    continue
                if op == 'br':
                    if not ins.a:
                        prev, lb, k = lb, ins.x[0], 0
                        continue
                    c = z3.simplify(self.val(env, ins.a[0], 1))
                    t, e = self.feasible(st, c), self.feasible(st, z3.Not(c))
                    if t and e:
                        s2 = st.copy()
                        s2.path.append(z3.Not(c))
                        work.append((dict(env), s2, ins.x[1], 0, lb, False, seen))
                        st.path.append(c)
                    if not t and not e:
                        break
                    prev, lb, k = lb, (ins.x[0] if t else ins.x[1]), 0
                    continue
                if op == 'ret':
                    out.append(('ret', st, self.val(env, ins.a[0], ins.ty) if ins.a else None, env))
                    break
                if op == 'unreachable':
                    break
                if op == 'call':
                    args = [self.val(env, v, t) for t, v in ins.a if t != 'metadata']
                    if ins.x[0] != 'g':
                        raise Undecided('indirect call')
                    res = self.function(st, ins.x[1], args)
                    for s2, v in res[1:]:
                        e2 = dict(env)
                        if ins.res is not None:
                            e2[ins.res] = v
                        work.append((e2, s2, lb, k + 1, prev, False, seen))
                    if not res:
                        break
                    st = res[0][0]
                    env = dict(env) if len(res) > 1 else env
                    if ins.res is not None:
                        env[ins.res] = res[0][1]
                    k += 1
                    continue
                self.step(f, env, st, ins)
                k += 1
        return out

    def step(self, f, env, st, ins):
        op = ins.op
        w = '%s' % f.name
        if op == 'alloca':
            if not (isinstance(ins.ty, int) or ins.ty == 'ptr') or ins.x != 1:
                raise Undecided('local array')
            c = Cell(ins.res, ins.ty if ins.ty != 'ptr' else 64)
            env[ins.res] = BPtr(c, bvv(0, 64))
            return
        if op == 'load':
            env[ins.res] = self.load(st, self.val(env, ins.a[0], 'ptr'), ins.ty, w)
            return
        if op == 'store':
            self.store(st, self.val(env, ins.a[1], 'ptr'), ins.ty, self.val(env, ins.a[0], ins.ty), w)
            return
        if op == 'getelementptr':
            b = self.val(env, ins.a[0], 'ptr')
            o, ty, first = b.o, ins.ty, True
            for ity, iv in ins.x:
                i = self.val(env, iv, ity)
                i = i if ity == 64 else z3.SignExt(64 - ity, i)
                if not first:
                    if not (isinstance(ty, tuple) and ty[0] == 'arr'):
                        raise Undecided('structure')
                    ty = ty[2]
                o = o + i * sizeof(ty, self.mod)
                first = False
            env[ins.res] = BPtr(b.r, z3.simplify(o))
            return
        if op in ('zext', 'sext', 'trunc'):
            x, n = self.val(env, ins.a[0], ins.x), ins.ty
            if ins.x == 1:
                v = z3.If(x, bvv(1 if op == 'zext' else -1, n), bvv(0, n))
            elif op == 'trunc':
                v = (z3.Extract(0, 0, x) == 1) if n == 1 else z3.Extract(n - 1, 0, x)
            else:
                v = (z3.ZeroExt if op == 'zext' else z3.SignExt)(n - ins.x, x)
            env[ins.res] = z3.simplify(v)
            return
        if op == 'select':
            c, x, y = self.val(env, ins.a[0], 1), self.val(env, ins.a[1], ins.ty), self.val(env, ins.a[2], ins.ty)
            env[ins.res] = z3.If(c, x, y)
            return
        if op == 'icmp':
            x, y = self.val(env, ins.a[0], ins.ty), self.val(env, ins.a[1], ins.ty)
            if isinstance(x, BPtr) or isinstance(y, BPtr):
                raise Undecided('pointer comparison')
            if ins.ty == 1 and ins.x not in ('eq', 'ne'):
                raise Undecided('icmp i1')
            v = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[ins.x]()
            env[ins.res] = v
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y, n = self.val(env, ins.a[0], ins.ty), self.val(env, ins.a[1], ins.ty), ins.ty
            if isinstance(x, BPtr) or isinstance(y, BPtr):
                raise Undecided('pointer arithmetic')
            if n == 1:
                v = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y)
            else:
                if 'nsw' in ins.flags:
                    e = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                         'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                         'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}.get(op)
                    if e is not None:
                        self.oblige(st, e(), 'no signed overflow in %s: %s' % (w, ins.line))
                if op in ('shl', 'lshr', 'ashr'):
                    self.oblige(st, z3.ULT(y, bvv(n, n)), 'shift amount below %d in %s' % (n, w))
                if op in ('udiv', 'urem', 'sdiv', 'srem'):
                    self.oblige(st, y != 0, 'no division by zero in %s' % w)
                v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                     'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
            env[ins.res] = z3.simplify(v)
            return
        raise Undecided('instruction ' + ins.line)


def outer_loops(f):
    """Headers of the loops not nested in another one."""
    from .hoare import H
    ls = H.loops(None, f)
    out = []
    for h, (k, body) in ls.items():
        if not any(h in b2 and h2 != h for h2, (_, b2) in ls.items()):
            out.append((h, body))
    return out


def rev(x, k, n):
    """The k low bits of x reversed, as an n-bit word."""
    if k == 0:
        return bvv(0, n)
    bits = [z3.Extract(i, i, x) for i in range(k)]
    r = z3.Concat(*bits) if k > 1 else bits[0]
    return fit(r, n) if k <= n else z3.Extract(n - 1, 0, r)


class Loop:
    """One loop proved by induction over the iteration count: guess-and-check invariants for the scalars
    (from the given templates), a stated invariant for the array at every index."""

    def __init__(self, M, f, args, regions, templates, inv, hyp, limit, post, name):
        """templates(it, width, entry value) -> candidate terms; inv(variant, st.mem, m, it) -> formula about index m;
        hyp(it, terms) -> list of assumed facts; post(mem, m) -> formula; limit: most iterations there can be."""
        self.M, self.f, self.args, self.regions = M, f, args, regions
        self.templates, self.inv, self.hyp, self.limit, self.post, self.name = templates, inv, hyp, limit, post, name

    def bound(self, it):
        return z3.ULT(it, self.limit)

    def prove(self, variants, st0):
        M, f = self.M, self.f
        prepare(f)
        ol = outer_loops(f)
        if len(ol) != 1:
            raise Undecided('%d outer loops in %s' % (len(ol), f.name))
        head, body = ol[0]
        from .hoare import H
        heads = M.run(f, M.enter(f, self.args), st0, f.order[0], None, {head})
        early = [x for x in heads if x[0] == 'ret']
        at = [x for x in heads if x[0] == head]
        m0 = z3.BitVec('m', 64)
        for _, s, _, _ in early:
            M.oblige(s, self.post(s.mem, m0), '%s: postcondition on the early return' % self.name, self.hyp(None, [m0] + [i for _, i in s.touched]))
        if not at:
            return
        if len(at) != 1:
            raise Undecided('several ways into the loop')
        _, st, prev, env = at[0]
        cells = [(r, v.r) for r, v in env.items() if isinstance(v, BPtr) and isinstance(v.r, Cell) and not isinstance(st.mem.get(v.r), BPtr)]
        mod = self.assigned(f, body)
        mods = [(r, c) for r, c in cells if r in mod]
        it = z3.BitVec('it', 64)
        zero = bvv(0, 64)
        # scalar candidates that hold on entry
        cand = []
        for r, c in mods:
            v0 = st.mem.get(c)
            if v0 is None:
                continue
            for t in self.templates(it, c.bits, v0):
                if M.holds(st, z3.substitute(t, (it, zero)) == v0):
                    cand.append((r, c, t))
        phis = [i for i in f.blocks[head] if i.op == 'phi']
        if phis:
            raise Undecided('phi at the loop head')

        def head_state(cs):
            s = St()
            s.mem = dict(st.mem)
            s.path = list(st.path)
            for r, c in mods:
                s.mem[c] = z3.BitVec('h_' + r.strip('%'), c.bits)
            for r, c, t in cs:
                s.path.append(s.mem[c] == t)
            for R in self.regions:
                if R.writable:
                    s.mem[R] = z3.Array('H_' + R.name, z3.BitVecSort(64), z3.BitVecSort(8 * R.es))
            s.path += self.hyp(it, []) + [z3.ULE(it, self.limit)]
            return s

        def body_runs(s):
            return M.run(f, dict(env), s, head, prev, {head})
        M.quiet += 1
        try:
            while True:
                s = head_state(cand)
                runs = [x for x in body_runs(s) if x[0] == head]
                keep = []
                for r, c, t in cand:
                    nx = z3.substitute(t, (it, it + 1))
                    if all(M.holds(x[1], x[1].mem[c] == nx, [self.bound(it)]) for x in runs):
                        keep.append((r, c, t))
                if len(keep) == len(cand):
                    break
                cand = keep
        finally:
            M.quiet -= 1
        self.invariants = [(r, str(z3.simplify(t))) for r, c, t in cand]
        # choose the variant of the array invariant that holds on entry and is inductive
        best = None
        for v in variants:
            save, M.obls = M.obls, []
            M.oblige(st, self.inv(v, st.mem, m0, zero), '%s: invariant on entry' % self.name, self.hyp(None, [m0]))
            s = head_state(cand)
            mem0 = dict(s.mem)
            outs = body_runs(s)
            for k, s2, x, _ in outs:
                idx = [m0] + [i for R, i in s2.touched]
                facts = [self.inv(v, mem0, j, it) for j in idx] + self.hyp(it, idx)
                if k == 'ret':
                    # the invariant may be needed at the image of m
                    M.oblige(s2, self.post(s2.mem, m0), '%s: postcondition' % self.name, facts)
                else:
                    M.oblige(s2, self.bound(it), '%s: loop terminates' % self.name, self.hyp(it, idx))
                    M.oblige(s2, self.inv(v, s2.mem, m0, it + 1), '%s: invariant preserved' % self.name, facts)
            got, M.obls = M.obls, save
            bad = sum(not o[1] for o in got)
            if best is None or bad < best[0]:
                best = (bad, got)
            if not bad:
                break
        M.obls += best[1]

    def assigned(self, f, body):
        vs = set()
        for lb in body:
            for ins in f.blocks[lb]:
                if ins.op == 'store' and ins.a[1][0] == 'r':
                    vs.add(ins.a[1][1])
                if ins.op == 'call':
                    for t, v in ins.a:
                        if isinstance(v, tuple) and v[0] == 'r':
                            vs.add(v[1])
        return vs
