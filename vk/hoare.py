"""Hoare-style verification of C functions (LLVM IR of the real source) over mathematical integers, with z3.

A function is executed symbolically path by path.  At a loop header the given invariant is an
obligation on entry and at every back edge; the loop body and what follows start from a state in
which everything the loop assigns is arbitrary and only the invariant is assumed.  A call to a
function with a contract checks the precondition and continues from the postcondition; other
functions are expanded.  Machine arithmetic is exact: a signed operation carries a no-overflow
obligation, an unsigned one is taken modulo 2^N unless it is proved not to wrap."""
import time
import z3
from .irexec import prepare, succs
from .irparse import sizeof, field_offset
from .terms import Undecided

KEEP = []
STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class HPtr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r
        self.o = o          # byte offset: int or z3 term


NULLP = HPtr(None, 0)


class Arr:
    """Array of elements of es bytes, symbolic length n; contents is a z3 array in the state's memory."""
    kind = 'arr'

    def __init__(self, name, es, n, signed=False, writable=True, esort='int'):
        self.name, self.es, self.n, self.signed, self.writable = name, es, n, signed, writable
        self.alive = True


class Cells:
    """A few cells at concrete offsets (struct, out-parameter)."""
    kind = 'cells'

    def __init__(self, name, size, writable=True):
        self.name, self.size, self.writable = name, size, writable


class State:
    __slots__ = ('env', 'mem', 'path', 'proved', 'ghost', 'freed')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.path = []
        self.proved = set()
        self.ghost = {}
        self.freed = set()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.path = list(self.path)
        s.proved = set(self.proved)
        s.ghost = dict(self.ghost)
        s.freed = set(self.freed)
        return s


def lit(x):
    return z3.IntVal(x) if type(x) is int else x


_fresh = [0]


def fresh(name):
    _fresh[0] += 1
    return z3.Int('%s!%d' % (name, _fresh[0]))


def fresh_arr(name):
    _fresh[0] += 1
    return z3.Array('%s!%d' % (name, _fresh[0]), z3.IntSort(), z3.IntSort())


def fresh_bool(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))


def hasq(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo += x.children()
    return False


class Linear:
    """Rewrites formulas so that every nonlinear monomial becomes a constant of its own (sound: products become
    arbitrary numbers, related only by distributivity and the lemmas given)."""

    def __init__(self):
        self.cache = {}
        self.atoms = {}
        self.keep = []

    def formula(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        self.keep.append(e)
        if z3.is_int(e) and not z3.is_app_of(e, z3.Z3_OP_UNINTERPRETED):
            r = self.build(self.poly(e))
        elif z3.is_app(e) and e.num_args():
            ch = [self.formula(c) for c in e.children()]
            r = e.decl()(*ch) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if z3.is_and(e) else z3.Or(*ch))
        else:
            r = e
        self.cache[k] = r
        return r

    def poly(self, e):
        """{sorted tuple of atom ids: coefficient}"""
        k = ('p', e.get_id())
        if k in self.cache:
            return self.cache[k]
        self.keep.append(e)
        if z3.is_int_value(e):
            v = e.as_long()
            r = {(): v} if v else {}
        elif z3.is_add(e) or z3.is_sub(e):
            r = {}
            for i, c in enumerate(e.children()):
                for m, x in self.poly(c).items():
                    r[m] = r.get(m, 0) + (x if i == 0 or z3.is_add(e) else -x)
            r = {m: x for m, x in r.items() if x}
        elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
            r = {m: -x for m, x in self.poly(e.children()[0]).items()}
        elif z3.is_mul(e):
            r = {(): 1}
            for c in e.children():
                q, n = self.poly(c), {}
                for m1, x1 in r.items():
                    for m2, x2 in q.items():
                        m = tuple(sorted(m1 + m2))
                        n[m] = n.get(m, 0) + x1 * x2
                r = {m: x for m, x in n.items() if x}
        else:
            if z3.is_app(e) and e.num_args():
                a = e.decl()(*[self.formula(c) for c in e.children()])
            else:
                a = e
            self.atoms[a.get_id()] = a
            self.keep.append(a)
            r = {(a.get_id(),): 1}
        self.cache[k] = r
        return r

    def build(self, p):
        out = []
        for m, x in sorted(p.items()):
            if not m:
                out.append(z3.IntVal(x))
                continue
            t = self.atoms[m[0]] if len(m) == 1 else z3.Int('nl!' + '_'.join(map(str, m)))
            out.append(x * t if x != 1 else t)
        return z3.IntVal(0) if not out else out[0] if len(out) == 1 else z3.Sum(out)


class Spec:
    """loops: {ordinal: dict(inv=f(view)->[(name,formula)], var=f(view)->term, mod=set of regions or None)}"""

    def __init__(self, loops=None, unsigned=(), signed=(), lemmas=None, unroll=70):
        self.loops = loops or {}
        self.unsigned = set(unsigned)
        self.signed = set(signed)
        self.lemmas = lemmas
        self.unroll = unroll


class View:
    """Access to local variables by source name inside an invariant."""

    def __init__(self, H, f, st, entry=None):
        self.H, self.f, self.st, self.entry = H, f, st, entry

    def __getattr__(self, name):
        v = self.H.var(self.f, self.st, name)
        return v

    def mem(self, r):
        return self.st.mem[r]


class H:
    def __init__(self, mod, contracts=None, timeout=10000, specs=None):
        self.mod = mod
        self.contracts = contracts or {}
        self.specs = specs or {}
        self.timeout = timeout
        self.obls = []           # (name, ok, detail)
        self.depth = 0
        self.axioms = []
        self.paths = 0
        self.inlined = set()
        self.maxpaths = 4000
        self.undef = None
        self.qcache = {}
        self.lin = None
        self.norm = Linear()

    # ------------------------------------------------------------ solving
    def solve(self, hyps, extra=(), timeout=None, seed=1):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.set('random_seed', seed)
        for h in list(self.axioms) + list(hyps) + list(extra):
            s.add(self.lin.formula(h) if self.lin is not None else h)
        t = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if r == z3.unknown:
            STATS['unknown'] += 1
        return r, (s.model() if r == z3.sat else None)

    def ground(self, st):
        """The quantifier-free part of the path condition."""
        out = []
        for h in st.path:
            k = h.get_id()
            if k not in self.qcache:
                self.qcache[k] = hasq(h)
                KEEP.append(h)
            if not self.qcache[k]:
                out.append(h)
        return out

    def feasible(self, st, cond):
        r, _ = self.solve(self.ground(st), [cond], 3000)
        return r != z3.unsat

    def entails(self, st, goal, timeout=2000):
        if z3.is_true(z3.simplify(goal)):
            return True
        g = self.ground(st)
        r, _ = self.solve(g, [z3.Not(goal)], timeout)
        if r == z3.unsat:
            return True
        if len(g) == len(st.path):
            return False
        r, _ = self.solve(st.path, [z3.Not(goal)], timeout)
        return r == z3.unsat

    def oblige(self, st, goal, name, lemmas=(), only=None):
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        r, m = None, None
        if only is None and not hasq(goal):
            r, m = self.solve(self.ground(st), list(lemmas) + [z3.Not(goal)], 3000)
        if r != z3.unsat:
            for seed, t in ((1, 8000), (7, 8000), (23, 15000), (1, None), (7, None)):
                r, m = self.solve(st.path if only is None else only, list(lemmas) + [z3.Not(goal)], t, seed=seed)
                if r != z3.unknown:
                    break
        ok = r == z3.unsat
        detail = None
        if not ok:
            detail = 'refuted' if r == z3.sat else 'unknown'
            if m is not None:
                detail += ': ' + ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and z3.is_int_value(m[d]))[:600]
        self.obls.append((name, ok, detail))
        return ok

    # ------------------------------------------------------------ views
    def view(self, st, v, N, signed):
        if type(v) is int:
            M = 1 << N
            v %= M
            return v - M if signed and v >= M // 2 else v
        if isinstance(v, HPtr):
            raise Undecided('pointer as integer')
        key = (v.get_id(), N, signed)
        if key in st.proved:
            return v
        lo, hi = (-(1 << (N - 1)), (1 << (N - 1)) - 1) if signed else (0, (1 << N) - 1)
        if self.entails(st, z3.And(v >= lo, v <= hi)):
            self.mark(st, v, N, signed)
            return v
        if signed:
            w = (v + (1 << (N - 1))) % (1 << N) - (1 << (N - 1))
        else:
            w = v % (1 << N)
        # keep the split explicit: it is easier for the solver than nested mod
        x = fresh('wrap')
        st.path.append(x == w)
        st.path.append(z3.And(x >= lo, x <= hi))
        self.mark(st, x, N, signed)
        return x

    def isunsigned(self, f, name, N):
        sp = self.spec(f)
        if sp is not None:
            if name in sp.unsigned:
                return True
            if name in sp.signed:
                return False
        return N == 32

    def var(self, f, st, name):
        key = self.varkey(f, name)
        v = st.env.get(key)
        if v is None:
            raise Undecided('variable %s of %s has no value' % (name, f.name))
        if isinstance(v, HPtr):
            return v
        f = self.mod.funcs[key[0]] if key[0] != f.name else f
        ty = f.allocaty[key[1]]
        v = self.view(st, v, ty, not self.isunsigned(f, name, ty))
        return lit(v)

    def varkey(self, f, name):
        prepare(f)
        for r in f.promoted:
            if r == name or r == name + '.addr' or r.lstrip('%') in (name, name + '.addr'):
                return (f.name, r)
        for t in self.specs:         # a helper expanded in the function under proof: its variables are visible too
            if t != f.name and t in self.mod.funcs and f.name in self.flat(t)[1]:
                return self.varkey(self.mod.funcs[t], name)
        raise Undecided('no variable %s in %s' % (name, f.name))

    # ------------------------------------------------------------ memory
    def load(self, st, p, ty, where):
        if isinstance(p, tuple) and p[0] == 'global' and type(ty) is not int and p[1] in ('stderr', 'stdout', 'stdin'):
            return ('stream', p[1])
        if not isinstance(p, HPtr) or p.r is None:
            raise Undecided('load through a null or unknown pointer in ' + where)
        r = p.r
        size = (ty + 7) // 8 if type(ty) is int else 8
        if r in st.freed:
            self.obls.append(('no use after free in ' + where, False, 'refuted'))
            raise Undecided('use after free')
        if r.kind == 'cells':
            if type(p.o) is not int:
                raise Undecided('symbolic offset')
            if p.o < 0 or p.o + size > r.size:
                self.obls.append(('read inside %s in %s' % (r.name, where), False, 'refuted'))
                raise Undecided('out of bounds')
            v = st.mem[r].get((p.o, size))
            if v is None:
                self.obls.append(('no read of uninitialised %s in %s' % (r.name, where), False, 'refuted'))
                raise Undecided('uninitialised')
            self.obls.append(('read inside %s' % r.name, True, None))
            return v
        i = self.index(st, r, p.o, size, where, 'read')
        v = z3.Select(st.mem[r], i)
        N = 8 * r.es
        lo, hi = (-(1 << (N - 1)), (1 << (N - 1)) - 1) if r.signed else (0, (1 << N) - 1)
        st.path.append(z3.And(v >= lo, v <= hi))
        self.mark(st, v, N, r.signed)
        return v

    def index(self, st, r, o, size, where, what):
        if size != r.es:
            raise Undecided('access size')
        if type(o) is int:
            if o % r.es:
                raise Undecided('misaligned')
            i = z3.IntVal(o // r.es)
        else:
            i = self.divide(o, r.es)
        self.oblige(st, z3.And(i >= 0, i < r.n), '%s inside %s in %s' % (what, r.name, where))
        return i

    def divide(self, o, es):
        """o / es for a byte offset built as es * index."""
        if isinstance(o, tuple):
            return o[1]
        if es == 1:
            return o
        raise Undecided('offset')

    def store(self, st, p, ty, v, where):
        if not isinstance(p, HPtr) or p.r is None:
            raise Undecided('store through a null or unknown pointer in ' + where)
        r = p.r
        size = (ty + 7) // 8 if type(ty) is int else 8
        if r in st.freed:
            self.obls.append(('no use after free in ' + where, False, 'refuted'))
            raise Undecided('use after free')
        if not r.writable:
            self.obls.append(('%s is not modified by %s' % (r.name, where), False, 'refuted'))
            raise Undecided('write to read-only')
        if r.kind == 'cells':
            if type(p.o) is not int or p.o < 0 or p.o + size > r.size:
                self.obls.append(('write inside %s in %s' % (r.name, where), False, 'refuted'))
                raise Undecided('out of bounds')
            d = dict(st.mem[r])
            d[(p.o, size)] = v
            st.mem[r] = d
            self.obls.append(('write inside %s' % r.name, True, None))
            return
        i = self.index(st, r, p.o, size, where, 'write')
        v = self.view(st, v, 8 * r.es, r.signed)
        old = st.mem[r]
        st.mem[r] = z3.Store(old, i, lit(v))
        h = st.ghost.get('onstore')
        if h is not None:
            h(self, st, r, old, i, lit(v), st.mem[r])

    # ------------------------------------------------------------ loops
    def loops(self, f):
        if getattr(f, 'hloops', None) is None:
            heads, color, stack = [], {}, []
            # iterative DFS for back edges
            order = []

            def dfs(lb):
                color[lb] = 1
                for s in succs(f, lb):
                    if color.get(s, 0) == 1:
                        order.append((lb, s))
                    elif color.get(s, 0) == 0:
                        dfs(s)
                color[lb] = 2
            dfs(f.order[0])
            pred = {}
            for lb in f.order:
                for s in succs(f, lb):
                    pred.setdefault(s, []).append(lb)
            bodies = {}
            for t, h in order:
                b = bodies.setdefault(h, {h})
                todo = [t]
                while todo:
                    x = todo.pop()
                    if x not in b:
                        b.add(x)
                        todo += pred.get(x, [])
            hs = sorted(bodies, key=f.order.index)
            f.hloops = {h: (k, bodies[h]) for k, h in enumerate(hs)}
        return f.hloops

    def assigned(self, f, body):
        vs, calls, stores = set(), False, False
        for lb in body:
            for ins in f.blocks[lb]:
                if ins.op == 'store':
                    a = ins.a[1]
                    if a[0] == 'r' and a[1] in f.promoted:
                        vs.add(a[1])
                    else:
                        stores = True
                if ins.op == 'call':
                    calls = True
        return vs, calls, stores

    def spec(self, f):
        """A helper that is expanded in a function with a specification shares that specification."""
        sp = self.specs.get(f.name)
        if sp is None and self.specs and f.name not in self.contracts:
            for t, s2 in self.specs.items():
                if s2.loops and f.name in self.flat(t)[1]:
                    return s2
        return sp

    def flat(self, t):
        """Loops of t in program order, those of helpers expanded in it included: {(function, ordinal): flat ordinal}, helpers."""
        d = self.__dict__.setdefault('_flat', {})
        if t not in d:
            num, helpers = {}, set()
            d[t] = (num, helpers)

            def visit(f, depth):
                prepare(f)
                heads = self.loops(f)
                for lb in f.order:
                    if lb in heads:
                        num[(f.name, heads[lb][0])] = len(num)
                    for ins in f.blocks[lb]:
                        if ins.op == 'call':
                            c = ins.x[1] if ins.x[0] == 'g' else None
                            g = self.mod.funcs.get(c)
                            if g is not None and c not in self.contracts and c not in self.specs and c not in helpers and depth < 6:
                                helpers.add(c)
                                visit(g, depth + 1)
            f = self.mod.funcs.get(t)
            if f is not None:
                visit(f, 0)
        return d[t]

    def ordinal(self, f, k):
        if f.name in self.specs:
            num = self.flat(f.name)[0]
        else:
            num = next((self.flat(t)[0] for t, s2 in self.specs.items() if s2.loops and f.name in self.flat(t)[1]), {})
        return num.get((f.name, k), k)

    # ------------------------------------------------------------ running
    def call(self, st, name, args):
        """-> list of (state, return value)"""
        h = self.contracts.get(name)
        if h is not None:
            return h(self, st, args)
        f = self.mod.funcs.get(name)
        if f is None:
            raise Undecided('call to ' + name)
        if self.depth > 8:
            raise Undecided('call depth')
        return self.function(st, f, args)

    def function(self, st, f, args):
        prepare(f)
        self.inlined.add(f.name)
        save = {k: v for k, v in st.env.items() if k[0] == f.name}
        st = st.copy()
        for (ty, r), v in zip(f.params, args):
            st.env[(f.name, r)] = v
        self.depth += 1
        try:
            out = []
            work = [(st, f.order[0], None, ())]
            while work:
                self.paths += 1
                if self.paths > self.maxpaths:
                    raise Undecided('too many paths')
                res = self.path(f, *work.pop())
                for kind, x in res:
                    if kind == 'ret':
                        x[0].env.update(save)
                        out.append(x)
                    else:
                        work.append(x)
            return out
        finally:
            self.depth -= 1

    def val(self, f, st, v):
        if type(v) is int:
            return v
        k = v[0]
        if k == 'r':
            return st.env.get((f.name, v[1]))
        if k == 'null':
            return NULLP
        if k == 'g':
            return ('global', v[1])
        raise Undecided('operand %r' % (v,))

    def path(self, f, st, lb, prev, cuts):
        """Run one path until a fork, a cut or the return.  cuts: tuple of (header, variant or None, unroll count)."""
        sp = self.spec(f)
        loops = self.loops(f)
        while True:
            if lb in loops:
                k, body = loops[lb]
                cuts = tuple(c for c in cuts if lb in loops[c[0]][1] or c[0] == lb)
                num = self.ordinal(f, k)
                ls = sp.loops.get(num) if sp is not None else None
                mine = [c for c in cuts if c[0] == lb]
                back = prev in body and bool(mine)
                if ls is None:
                    cnt = mine[0][2] + 1 if back else 0
                    if cnt > (sp.unroll if sp is not None else 70):
                        raise Undecided('loop %d of %s has no invariant' % (k, f.name))
                    cuts = tuple(c for c in cuts if c[0] != lb) + ((lb, None, cnt),)
                elif back:
                    w = View(self, f, st)
                    w.old = mine[0][3]
                    lem = sp.lemmas(self, w) if sp.lemmas else ()
                    for nm, g in ls['inv'](w):
                        self.oblige(st, g, '%s: loop %d keeps invariant "%s"' % (f.name, num, nm), lem)
                    if ls.get('mod') is not None:
                        hd = st.ghost[('head', f.name, k)]
                        for r in st.mem:
                            if r.writable and r.name not in ls['mod'] and r in hd.mem and st.mem[r] is not hd.mem[r]:
                                raise Undecided('loop %d of %s writes %s, which its specification excludes' % (k, f.name, r.name))
                    if mine[0][1] is not None:
                        t = ls['var'](w)
                        self.oblige(st, z3.And(mine[0][1] >= 0, t < mine[0][1]), '%s: loop %d terminates (variant decreases)' % (f.name, num), lem)
                    return []
                else:
                    w = View(self, f, st)
                    w.old = st
                    lem = sp.lemmas(self, w) if sp.lemmas else ()
                    for nm, g in ls['inv'](w):
                        self.oblige(st, g, '%s: loop %d establishes invariant "%s"' % (f.name, num, nm), lem)
                    old = st.copy()
                    vs, calls, stores = self.assigned(f, body)
                    for r in vs:
                        if isinstance(st.env.get((f.name, r)), HPtr):
                            raise Undecided('pointer assigned in a loop')
                        ty = f.allocaty[r]
                        if type(ty) is not int:
                            raise Undecided('pointer assigned in a loop')
                        if st.env.get((f.name, r)) is None and not self.live_in(f, lb, r, body):
                            continue
                        x = fresh(r.lstrip('%'))
                        un = self.isunsigned(f, r.lstrip('%').replace('.addr', ''), ty)
                        lo, hi = (0, (1 << ty) - 1) if un else (-(1 << (ty - 1)), (1 << (ty - 1)) - 1)
                        st.path.append(z3.And(x >= lo, x <= hi))
                        self.mark(st, x, ty, not un)
                        st.env[(f.name, r)] = x
                    if calls or stores:
                        for r in list(st.mem):
                            if not r.writable or r in st.freed:
                                continue
                            if ls.get('mod') is not None and r.name not in ls['mod']:
                                continue
                            if r.kind == 'arr':
                                st.mem[r] = fresh_arr(r.name)
                            else:
                                st.mem[r] = {kk: (fresh(r.name) if not isinstance(v, HPtr) else v) for kk, v in st.mem[r].items()}
                    w = View(self, f, st)
                    w.old = old
                    for nm, g in ls['inv'](w):
                        st.path.append(g)
                    if sp.lemmas:
                        st.path += list(sp.lemmas(self, w))
                    var = None
                    if ls.get('var'):
                        var = ls['var'](w)
                    else:
                        self.obls.append(('%s: loop %d terminates' % (f.name, num), False, 'no variant given'))
                    st.ghost[('head', f.name, k)] = st.copy()
                    cuts = tuple(c for c in cuts if c[0] != lb) + ((lb, var, 0, old),)
            code = f.code[lb]
            nxt = None
            i = 0
            if code and code[0].op == 'phi':
                vals = []
                while code[i].op == 'phi':
                    ins = code[i]
                    for v, l in ins.x:
                        if l == prev:
                            vals.append((ins.res, self.val(f, st, v)))
                    i += 1
                for r, v in vals:
                    st.env[(f.name, r)] = v
            for j in range(i, len(code)):
                ins = code[j]
                op = ins.op
                if op == 'br':
                    if not ins.a:
                        nxt = ins.x[0]
                        break
                    c = self.val(f, st, ins.a[0])
                    if type(c) is int:
                        nxt = ins.x[0] if c & 1 else ins.x[1]
                        break
                    c = self.boolean(c)
                    out = []
                    for cond, t in ((c, ins.x[0]), (z3.Not(c), ins.x[1])):
                        if self.feasible(st, cond):
                            s2 = st.copy()
                            s2.path.append(cond)
                            out.append(('go', (s2, t, lb, cuts)))
                    return out
                if op == 'ret':
                    v = self.val(f, st, ins.a[0]) if ins.a else None
                    return [('ret', (st, v))]
                if op == 'unreachable':
                    return []
                if op == 'switch':
                    raise Undecided('switch')
                if op == 'call':
                    rs = self.do_call(f, st, ins)
                    if len(rs) == 1:
                        st, v = rs[0]
                        if ins.res is not None:
                            st.env[(f.name, ins.res)] = v
                        continue
                    # several outcomes: continue each from the next instruction
                    out = []
                    for s2, v in rs:
                        if ins.res is not None:
                            s2.env[(f.name, ins.res)] = v
                        out += self.rest(f, s2, lb, j + 1, prev, cuts)
                    return out
                self.step(f, st, ins)
            if nxt is None:
                raise Undecided('block falls through')
            prev, lb = lb, nxt

    def rest(self, f, st, lb, j, prev, cuts):
        """Finish a block from instruction j: a synthetic block is executed for this path."""
        code = f.code[lb]
        for k in range(j, len(code)):
            ins = code[k]
            op = ins.op
            if op == 'br':
                if not ins.a:
                    return [('go', (st, ins.x[0], lb, cuts))]
                c = self.val(f, st, ins.a[0])
                if type(c) is int:
                    return [('go', (st, ins.x[0] if c & 1 else ins.x[1], lb, cuts))]
                c = self.boolean(c)
                out = []
                for cond, t in ((c, ins.x[0]), (z3.Not(c), ins.x[1])):
                    if self.feasible(st, cond):
                        s2 = st.copy()
                        s2.path.append(cond)
                        out.append(('go', (s2, t, lb, cuts)))
                return out
            if op == 'ret':
                return [('ret', (st, self.val(f, st, ins.a[0]) if ins.a else None))]
            if op == 'unreachable':
                return []
            if op == 'call':
                rs = self.do_call(f, st, ins)
                out = []
                for s2, v in rs:
                    if ins.res is not None:
                        s2.env[(f.name, ins.res)] = v
                    out += self.rest(f, s2, lb, k + 1, prev, cuts)
                return out
            self.step(f, st, ins)
        raise Undecided('block falls through')

    def live_in(self, f, lb, r, body):
        return True

    def do_call(self, f, st, ins):
        args = []
        for aty, v in ins.a:
            if aty == 'metadata':
                continue
            args.append(self.val(f, st, v))
        if ins.x[0] != 'g':
            raise Undecided('indirect call')
        return self.call(st, ins.x[1], args)

    def boolean(self, c):
        if z3.is_bool(c):
            return c
        return c != 0

    def num(self, c):
        return z3.If(c, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(c) else c

    def step(self, f, st, ins):
        op = ins.op
        E = st.env
        R = (f.name, ins.res)
        V = lambda k: self.val(f, st, ins.a[k])
        where = f.name
        if op == 'alloca':
            if ins.res in f.promoted:
                E[R] = None
                return
            r = Cells('%s:%s' % (f.name, ins.res), sizeof(ins.ty, self.mod) * (ins.x if type(ins.x) is int else 1))
            st.mem[r] = {}
            E[R] = HPtr(r, 0)
            return
        if op == 'load':
            a = ins.a[0]
            if a[0] == 'r' and a[1] in f.promoted:
                v = E.get((f.name, a[1]))
                if v is None:
                    self.obls.append(('no uninitialised local in ' + f.name, False, 'refuted'))
                    raise Undecided('uninitialised local')
                E[R] = v
                return
            E[R] = self.load(st, self.val(f, st, a), ins.ty, where)
            return
        if op == 'store':
            v = V(0)
            a = ins.a[1]
            if v is None:
                raise Undecided('uninitialised value stored')
            if a[0] == 'r' and a[1] in f.promoted:
                E[(f.name, a[1])] = v
                return
            self.store(st, self.val(f, st, a), ins.ty, v, where)
            return
        if op == 'getelementptr':
            base = V(0)
            if not isinstance(base, HPtr):
                raise Undecided('gep base')
            ty = ins.ty
            first = True
            off = base.o
            for ity, iv in ins.x:
                i = self.val(f, st, iv)
                if first or ty[0] == 'arr':
                    if not first:
                        ty = ty[2]
                    sz = sizeof(ty, self.mod)
                    i = self.view(st, i, ity, True)
                    if base.r is not None and base.r.kind == 'arr' and sz == base.r.es:
                        oi = off[1] if isinstance(off, tuple) else z3.IntVal(off // sz)
                        off = ('ix', oi + i)
                    elif type(i) is int and type(off) is int:
                        off = off + i * sz
                    else:
                        raise Undecided('symbolic offset in ' + where)
                    first = False
                else:
                    o, ty = field_offset(ty, i, self.mod)
                    if type(off) is not int:
                        raise Undecided('field of an array element')
                    off += o
            E[R] = HPtr(base.r, off)
            return
        if op in ('add', 'sub', 'mul'):
            x, y, N = V(0), V(1), ins.ty
            if isinstance(x, HPtr) or isinstance(y, HPtr):
                raise Undecided('pointer arithmetic')
            if 'nsw' in ins.flags:
                x, y = self.view(st, x, N, True), self.view(st, y, N, True)
            v = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if type(v) is int:
                if 'nsw' in ins.flags:
                    h = 1 << (N - 1)
                    self.obls.append(('no overflow in %s' % where, -h <= v < h, None if -h <= v < h else 'refuted'))
                E[R] = v % (1 << N)
                if E[R] >> (N - 1) and 'nsw' in ins.flags:
                    E[R] -= 1 << N
                return
            v = z3.simplify(v, som=False) if op != 'mul' else v
            if 'nsw' in ins.flags:
                h = 1 << (N - 1)
                if self.oblige(st, z3.And(v >= -h, v < h), 'no signed overflow in %s: %s' % (where, ins.line.strip()[:80]), self.speclem(f, st)):
                    self.mark(st, v, N, True)
                else:
                    raise Undecided('possible overflow in ' + where)
            E[R] = v
            return
        if op == 'shl':
            x, y, N = V(0), V(1), ins.ty
            if type(y) is not int:
                raise Undecided('symbolic shift')
            E[R] = x * (1 << y)
            if 'nsw' in ins.flags:
                raise Undecided('signed shift')
            return
        if op in ('lshr', 'ashr'):
            x, y, N = V(0), V(1), ins.ty
            if type(y) is not int:
                raise Undecided('symbolic shift')
            x = self.view(st, x, N, op == 'ashr')
            E[R] = x >> y if type(x) is int else self.fdiv(st, x, 1 << y)
            return
        if op in ('and', 'or', 'xor'):
            x, y, N = V(0), V(1), ins.ty
            if N == 1:
                x, y = self.tobool(x), self.tobool(y)
                E[R] = z3.And(x, y) if op == 'and' else z3.Or(x, y) if op == 'or' else z3.Xor(x, y)
                return
            E[R] = self.bitop(st, op, x, y, N)
            return
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            x, y, N = V(0), V(1), ins.ty
            sg = op[0] == 's'
            x, y = self.view(st, x, N, sg), self.view(st, y, N, sg)
            self.oblige(st, lit(y) != 0, 'no division by zero in ' + where, self.speclem(f, st))
            if sg and not (type(y) is int and y != -1):
                if not self.entails(st, z3.And(lit(y) > 0)):
                    raise Undecided('sign of the divisor')
            if type(x) is int and type(y) is int:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                E[R] = q if op[1:] == 'div' else x - q * y
                return
            q, r = fresh('quo'), fresh('rem')
            X, Y = lit(x), lit(y)
            st.path.append(X == Y * q + r)
            if sg and not self.entails(st, X >= 0):
                st.path.append(z3.If(X >= 0, z3.And(r >= 0, r < Y), z3.And(r <= 0, r > -Y)))
                st.path.append(z3.If(X >= 0, z3.And(q >= 0, q <= X), z3.And(q <= 0, q >= X)))
            else:
                st.path.append(z3.And(r >= 0, r < Y))
                st.path.append(z3.And(q >= 0, q <= X))
            st.ghost.setdefault('quo', [])
            st.ghost['quo'] = st.ghost['quo'] + [(X, Y, q, r)]
            E[R] = q if op[1:] == 'div' else r
            return
        if op == 'icmp':
            E[R] = self.icmp(st, ins.x, V(0), V(1), ins.ty)
            return
        if op == 'zext':
            x = V(0)
            E[R] = self.num(x) if ins.x == 1 and not type(x) is int else (x & 1 if ins.x == 1 else self.view(st, x, ins.x, False))
            return
        if op == 'sext':
            x = V(0)
            if ins.x == 1:
                E[R] = -self.num(x) if type(x) is not int else -(x & 1)
            else:
                E[R] = self.view(st, x, ins.x, True)
            return
        if op == 'trunc':
            x = V(0)
            if ins.ty == 1:
                E[R] = x & 1 if type(x) is int else (x if z3.is_bool(x) else self.view(st, x, 1, False) == 1)
                return
            E[R] = x
            return
        if op == 'select':
            c, x, y = V(0), V(1), V(2)
            if type(c) is int:
                E[R] = x if c & 1 else y
                return
            if isinstance(x, HPtr) or isinstance(y, HPtr):
                raise Undecided('pointer select')
            N = ins.ty if type(ins.ty) is int else 64
            if N > 1:
                b = self.boolean(c)
                if self.solve(self.ground(st), [b], 1000)[0] == z3.unsat:
                    E[R] = y
                    return
                if self.solve(self.ground(st), [z3.Not(b)], 1000)[0] == z3.unsat:
                    E[R] = x
                    return
            if N == 1:
                E[R] = z3.If(self.boolean(c), self.tobool(x), self.tobool(y))
            else:
                E[R] = z3.If(self.boolean(c), lit(self.view(st, x, N, True)), lit(self.view(st, y, N, True)))
            return
        if op in ('bitcast', 'freeze'):
            E[R] = V(0)
            return
        raise Undecided('instruction ' + ins.line)

    def mark(self, st, v, N, signed):
        st.proved.add((v.get_id(), N, signed))
        KEEP.append(v)           # ids stay valid while the term lives

    def speclem(self, f, st):
        sp = self.specs.get(f.name)
        if sp is not None and sp.lemmas:
            w = View(self, f, st)
            w.old = st
            try:
                return sp.lemmas(self, w)
            except Undecided:
                return ()
        elif getattr(self, 'lemset', None) is not None:
            return self.lemset(st)
        return ()

    def tobool(self, x):
        if type(x) is int:
            return z3.BoolVal(bool(x & 1))
        return self.boolean(x)

    def fdiv(self, st, x, d):
        """floor(x/d) with its defining inequalities."""
        lin = self.lin or self.norm
        key = ('fd', d, tuple(sorted(lin.poly(lit(x)).items())))
        if key in st.ghost:
            return st.ghost[key]
        q = fresh('fd')
        st.ghost[key] = q
        st.path.append(z3.And(d * q <= x, x <= d * q + (d - 1)))
        st.ghost['fdiv'] = st.ghost.get('fdiv', []) + [(x, d, q)]
        return q

    def bitop(self, st, op, x, y, N):
        if type(x) is int and type(y) is int:
            M = (1 << N) - 1
            return (x & y if op == 'and' else x | y if op == 'or' else x ^ y) & M
        if type(x) is int:
            x, y = y, x
        if type(y) is int:
            M = (1 << N) - 1
            y &= M
            if y & (y + 1) == 0:            # low mask
                m = y + 1
                low = x - m * self.fdiv(st, x, m)
                if op == 'and':
                    return low
                if op == 'or':
                    return x - low + y
            hi = M ^ y
            if hi & (hi + 1) == 0 and op == 'and':   # clear low bits
                m = hi + 1
                return m * self.fdiv(st, x, m)
            lo = y & -y
            if op == 'and' and (y + lo) & y == 0 and y:      # contiguous bits
                m = y + lo
                return lo * (self.fdiv(st, x, lo) - (m // lo) * self.fdiv(st, x, m))
        raise Undecided('bit operation')

    def icmp(self, st, pred, x, y, N):
        if isinstance(x, HPtr) or isinstance(y, HPtr):
            if pred in ('eq', 'ne') and isinstance(x, HPtr) and isinstance(y, HPtr):
                if x.r is not y.r:
                    return int(pred == 'ne')
                if type(x.o) is int and type(y.o) is int:
                    return int((x.o == y.o) == (pred == 'eq'))
            raise Undecided('pointer comparison')
        if type(x) is not int and z3.is_bool(x):
            x = self.num(x)
        if type(y) is not int and z3.is_bool(y):
            y = self.num(y)
        sg = pred[0] == 's' or (pred in ('eq', 'ne') and N != 32)
        if type(N) is int and N > 1:
            x, y = self.view(st, x, N, sg), self.view(st, y, N, sg)
        if type(x) is int and type(y) is int:
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        x, y = lit(x), lit(y)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
