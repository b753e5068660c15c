"""C07: accesses, frame and calling convention, for every contents of the arrays.

Array elements are forgotten on every store and unknown on every load (any value of the family's range), so
the run covers all contents in the family's range at once; what is checked is where the code reads and writes, that
nothing uninitialised is read, and the state of the registers and the stack on return."""
import os
import numpy as np, ctypes
from .terms import Ctx, ModSpace, Q, Undecided, Refuted, Lin
from .irexec import Exec, Obl, Region, Ptr, UNINIT
from . import build, ew, native
from . import transforms as T
from . import products as P


class _Top:
    __slots__ = ()

    def __repr__(self):
        return 'TOP'


TOP = _Top()      # any value at all


def _lift(name):
    base = getattr(Ctx, name)

    def f(self, *a):
        for x in a:
            if x is TOP:
                return TOP
        return base(self, *a)
    return f


class TopCtx(Ctx):
    """Array contents are forgotten altogether; addresses and counters stay exact."""

    def range(self, L, fuel=4):
        if L is TOP:
            return -(1 << 80), 1 << 80
        return Ctx.range(self, L, fuel)

    def key(self, L):
        return object() if L is TOP else Ctx.key(self, L)


for _m in ('add', 'sub', 'mul', 'mulc', 'neg', 'floordiv', 'isneg', 'iszero', 'tdiv', 'trem', 'signed', 'unsigned', 'andc', 'bit2', 'slt', 'ite'):
    setattr(TopCtx, _m, _lift(_m))

_ARITH = {'add', 'sub', 'mul', 'shl', 'zext', 'sext', 'trunc', 'icmp', 'and', 'or', 'xor', 'ashr', 'lshr', 'srem', 'urem', 'sdiv', 'udiv'}


class TopExec(Exec):
    def step(self, f, env, ins, op):
        if op in _ARITH:
            for a in ins.a:
                if type(a) is not int and a[0] == 'r' and env[f.slots[a[1]]] is TOP:
                    if op in ('srem', 'urem', 'sdiv', 'udiv'):
                        d = self.val(f, env, ins.a[1])
                        if type(d) is not int or d in (0, -1):
                            raise Undecided('symbolic divisor')
                    env[f.slots[ins.res]] = TOP
                    return
        Exec.step(self, f, env, ins, op)

    def decide(self, c):
        return c if c is TOP else Exec.decide(self, c)

    def merge(self, c, a, b):
        if a is b:
            return a
        if a is TOP and isinstance(b, (int, Lin)) or b is TOP and isinstance(a, (int, Lin)):
            return TOP
        return Exec.merge(self, c, a, b)


def exec_class(ctx):
    return TopExec if isinstance(ctx, TopCtx) else Exec


class Havoc(Region):
    __slots__ = ('n', 'init', 'rng')

    def __init__(self, name, es, n, writable=True, init=True, rng=None):
        Region.__init__(self, name, es, None, writable)
        self.cells = []
        self.n = n
        self.init = None if init else [False] * n
        self.hook = self
        self.rng = rng

    def bounds(self, ex, o, size, what, where):
        if type(o) is not int:
            raise Undecided('symbolic address at ' + where)
        if o < 0 or o + size > self.es * self.n:
            ex.obl.fail('memory', '%s outside %s (offset %d, size %d, array of %d bytes) at %s' % (what, self.name, o, size, self.es * self.n, where))
            raise Refuted('%s outside %s' % (what, self.name))
        if o % self.es:
            raise Undecided('misaligned access of ' + self.name)
        ex.obl.ok('memory')

    def load(self, ex, r, o, size, where):
        self.bounds(ex, o, size, 'read', where)
        if self.init is not None and not all(self.init[o // self.es:(o + size - 1) // self.es + 1]):
            if None in self.init[o // self.es:(o + size - 1) // self.es + 1]:
                raise Undecided('%s[%d] is initialised on some paths only' % (self.name, o // self.es))
            ex.obl.fail('memory', 'read of uninitialised %s[%d] at %s' % (self.name, o // self.es, where))
            raise Refuted('uninitialised read')
        c = ex.ctx
        if isinstance(c, TopCtx):
            return TOP
        if self.rng and size == self.es:
            return c.var('h#%d' % c.n_atoms, *self.rng)
        h = 1 << (8 * size - 1)
        return c.var('h#%d' % c.n_atoms, -h, h - 1)

    def store(self, ex, r, o, size, v, where):
        if not self.writable:
            ex.obl.fail('memory', 'write to read-only %s at %s' % (self.name, where))
            raise Refuted('write to read-only ' + self.name)
        self.bounds(ex, o, size, 'write', where)
        if size < self.es:
            raise Undecided('sub-element store')
        if self.init is not None:
            sure = not getattr(ex, 'pathc', None)
            for i in range(o // self.es, (o + size) // self.es):
                if sure:
                    self.init[i] = True
                elif not self.init[i]:
                    self.init[i] = None


KINDS = ('memory', 'abi')


def guarded(run):
    """(obligations, failed memory/abi conditions, undecided): first with array contents forgotten, then, where that
    is not precise enough, with contents in the documented range."""
    r = guarded1(run, TopCtx())
    return r if not (r[1] or r[2]) else guarded1(run, Ctx())


def guarded1(run, ctx):
    obl = Obl()
    try:
        run(ctx, obl)
        und = None
    except Undecided as e:
        und = str(e)
    except Refuted as e:
        und = None
        if not [q for q in obl.fails if q['kind'] in KINDS]:
            obl.fails.append(dict(kind='memory', msg=str(e)))
    except T.ENGINE as e:
        und = 'engine: %s: %s' % (type(e).__name__, e)
    return obl, [q['msg'] for q in obl.fails if q['kind'] in KINDS], und


def transform_run(tr, n, garbage=False):
    def run(ctx, obl):
        a, p = Havoc('a', 4, n, rng=tr.f['inr']), Havoc('p', 2, n, False, rng=tr.f['tab'])
        if tr.fam == 'asm':
            from .x86 import X86
            nn = ctx.add(n, ctx.mulc(ctx.var('garbage', 0, (1 << 32) - 1), 1 << 32))
            X86(ctx, obl).call(tr.name, [Ptr(a, 0), nn, Ptr(p, 0)])
        else:
            exec_class(ctx)(ew.modules(tr.f['src']), ctx, obl).call(tr.name, [Ptr(a, 0), n, Ptr(p, 0)] + ([Q] if tr.fam == 'naive' else []))
    return run


def product_run(fam, n, k):
    def run(ctx, obl):
        c, a, b = (Havoc(x, 4, n, init=x != 'c', rng=T.FAMS[fam]['inr']) for x in 'cab')
        ex = exec_class(ctx)(P.module(fam, n), ctx, obl, externs=P.Asm(ctx, obl) if fam == 'asm' else None)
        ex.call(P.product_name(fam, n, k), [Ptr(c, 0), Ptr(a, 0), Ptr(b, 0)])
    return run


def wrapper_run(fam, n, role):
    def run(ctx, obl):
        a = Havoc('a', 4, n, rng=T.FAMS[fam]['inr'])
        ex = exec_class(ctx)(P.wrapper_module(fam, n), ctx, obl, externs=P.Asm(ctx, obl) if fam == 'asm' else None)
        ex.call('vk_' + P.wrappers(fam, n)[role], [Ptr(a, 0)])
    return run


def record(name, contract, obl, fails, und, searches):
    rec = dict(function=name, contract=contract)
    runs = 0
    for s in (searches if (fails or und) else searches[:1]):
        r, f, t = native.search(s, timeout=150)
        runs += r
        if f is not None:
            rec.update(status='violated', obligation=fails[0] if fails else und or 'memory (found by running the code)', input=f, output=dict(failed=fails[:5], undecided=und))
            return rec
    if fails and not und:
        rec.update(status='violated', obligation=fails[0], input=None, output=dict(failed=fails[:10]))
    elif fails or und:
        rec.update(status='bounded', bound='%d native runs with guard pages' % runs, why=und or fails[0], runs=runs)
    else:
        rec.update(status='proved', obligations=sum(obl.count.get(k, 0) for k in KINDS), kinds={k: obl.count.get(k, 0) for k in KINDS})
    return rec


# ------------------------------------------------------------------ native side
_abi = None


def abi_lib():
    global _abi
    if _abi is None:
        here = os.path.dirname(os.path.abspath(__file__))
        so = os.path.join(build.scratch(), 'abi.so')
        build.sh(['gcc', '-shared', '-fPIC', '-o', so, os.path.join(here, 'abi_stub.S')])
        _abi = ctypes.CDLL(so)
    return _abi


def place(arr, ro, tail):
    return native.Guarded(arr, tail, ro)


def asm_call(lib, name, arrs, ro, order, tail):
    """Calls through the stub that fills registers with sentinels; returns None or what went wrong."""
    gs = [place(a, i in ro, tail) for i, a in enumerate(arrs)]
    args = []
    for k, v in order:
        args.append(gs[v].addr if k == 'a' else (v & 0xffffffff) | (0xdeadbeef << 32))
    args += [0] * (4 - len(args))
    fn = ctypes.cast(getattr(lib, name), ctypes.c_void_p).value
    buf = (ctypes.c_uint64 * 4)(*args)
    out = (ctypes.c_uint64 * 16)()
    abi_lib().vk_abi_call(ctypes.c_void_p(fn), buf, out)
    why = None
    for i, r in enumerate(['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']):
        if out[i] != 0x1111111111111111 * (i + 1):
            why = '%s not preserved' % r
    if out[6] != 1:
        why = 'the stack pointer is not preserved'
    if out[7] != 1:
        why = 'the caller frame was overwritten'
    if not all(g.canary_ok() for g in gs):
        why = 'memory next to an array was overwritten'
    res = [g.arr.copy() for g in gs]
    for g in gs:
        g.free()
    return why, res


def transform_guard(tr, ns, seed):
    rng = np.random.default_rng(seed)
    lib = T.lib_for(tr, False)
    lo, hi = tr.f['inr']
    runs = 0
    for n in ns:
        gs = T.generator(tr.order(n)) if n <= (2048 if tr.psi else 4096) else [1]
        tab = T.concrete_table(tr, n, gs[0]) if n <= 4096 else np.ones(n, np.int16)
        for tail in (True, False):
            X = T.inputs(rng, n, lo, hi, 1)[0].astype(np.int32)
            order = [('a', 0), ('i', n), ('a', 1)] + ([('i', Q)] if tr.fam == 'naive' else [])
            native.note(dict(function=tr.name, n=n, a=X, placement='end of page' if tail else 'start of page', upper_half_of_n='0xdeadbeef' if tr.fam == 'asm' else None))
            runs += 1
            if tr.fam == 'asm':
                why, _ = asm_call(lib, tr.name, [X, tab], (1,), order, tail)
            else:
                out, ok = native.call(lib, tr.name, [X, tab], (1,), order=order, tail=tail)
                why = None if ok else 'memory next to an array was overwritten'
            if why:
                return runs, dict(function=tr.name, n=n, a=X.tolist(), observed=why)
    return runs, None


def decide_transform(tr, seed, thorough):
    ns = [n for n in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096) if n >= (16 if tr.fam == 'asm' else 2)]
    out = []
    for n in ns:
        o, f, u = guarded(transform_run(tr, n))
        ss = [lambda: transform_guard(tr, [n], seed), lambda: transform_guard(tr, ns, seed)]
        out.append(record(tr.name, 'n=%d, any contents%s' % (n, ', any upper half of the size register' if tr.fam == 'asm' else ''), o, f, u, ss))
        if out[-1]['status'] == 'violated':
            break
    return out


def product_guard(fam, n, k, seed):
    rng = np.random.default_rng(seed)
    L = P.lib(fam)
    name = P.product_name(fam, n, k)
    runs = 0
    for tail in (True, False):
        a, b = rng.integers(0, Q, n).astype(np.int32), rng.integers(0, Q, n).astype(np.int32)
        native.note(dict(function=name, a=a, b=b))
        out, ok = native.call(L, name, [np.zeros(n, np.int32), a, b], order=[('a', 0), ('a', 1), ('a', 2)], tail=tail)
        runs += 1
        if not ok:
            return runs, dict(function=name, a=a.tolist(), b=b.tolist(), observed='memory next to an array was overwritten')
        # the result may not depend on the old contents of c
        o2, ok = native.call(L, name, [rng.integers(-2**31, 2**31, n).astype(np.int32), a, b], order=[('a', 0), ('a', 1), ('a', 2)], tail=tail)
        if (out[0] != o2[0]).any():
            return runs, dict(function=name, a=a.tolist(), b=b.tolist(), observed='the result depends on the old contents of c')
    return runs, None


def decide_product(fam, n, k, seed):
    o, f, u = guarded(product_run(fam, n, k))
    return record(P.product_name(fam, n, k), 'any contents', o, f, u, [lambda: product_guard(fam, n, k, seed)])


def wrapper_guard(fam, n, role, seed):
    rng = np.random.default_rng(seed)
    L = P.driver_lib(fam)
    w = P.wrappers(fam, n)[role]
    for tail in (True, False):
        a = rng.integers(0, Q, n).astype(np.int32)
        native.note(dict(function=w, a=a))
        out, ok = native.call(L, 'vk_' + w, [a], order=[('a', 0)], tail=tail)
        if not ok:
            return 2, dict(function=w, a=a.tolist(), observed='memory next to the array was overwritten')
    return 2, None


def decide_wrappers(fam, n, seed):
    return [record(P.wrappers(fam, n)[r], 'any contents', *guarded(wrapper_run(fam, n, r)), [lambda: wrapper_guard(fam, n, r, seed)]) for r in P.wrappers(fam, n)]


def ew_guard(ct, seed):
    rng = np.random.default_rng(seed)
    runs = 0
    lib = ew.lib_for(ct)
    sizes = [0, 1, 2, 3, 5, 8, 17, 64, 1000] if ct.mult == 1 else [16, 32, 48, 80, 1024, 1040]
    for n in sizes:
        for tail in (True, False):
            x, y = ew.operands(ct, rng, n)
            native.note(dict(function=ct.name, n=n, a=x, b=y))
            runs += 1
            if not ct.asm:
                z, ok = ew.native_call(ct, x, y, tail=tail)
                if not ok:
                    return runs, dict(function=ct.name, n=n, observed='memory next to an array was overwritten')
                continue
            x32 = x.astype(np.int32)
            if ct.kind == 'u':
                A, ro, order = [x32], (), [('a', 0), ('i', n)]
            elif ct.kind == 'p':
                A, ro, order = [x32, y.astype(np.int16)], (1,), [('a', 0), ('i', n), ('a', 1)]
            elif ct.kind == 's':
                A, ro, order = [x32], (), [('a', 0), ('i', n), ('i', y)]
            else:
                A, ro, order = [np.zeros(n, np.int32), x32, y.astype(np.int32)], (1, 2), [('a', 0), ('i', n), ('a', 1), ('a', 2)]
            why, res = asm_call(lib, ct.name, A, ro, order, tail)
            if why:
                return runs, dict(function=ct.name, n=n, a=x.tolist(), observed=why)
            bad = ew.bad_elements(ct, x, y, res[0])
            z, ok = ew.native_call(ct, x, y, tail=tail)
            if (z != res[0]).any():
                return runs, dict(function=ct.name, n=n, a=x.tolist(), observed='the result depends on the upper halves of 32-bit arguments')
    return runs, None


def decide_ew(ct, seed):
    """Every length: accesses in bounds, frame, independence of the upper register halves."""
    try:
        r = ew.all_n(ct, garbage=ct.asm)
        fails = [q['msg'] for q in r.obl.fails if q['kind'] in KINDS] + [t for d, t in r.problems if t.startswith('writes ')]
        dep = [t for d, t in r.problems if 'garbage' in t]
        und = r.undecided
        obl = r.obl
        fails += dep
    except T.ENGINE as e:
        obl, fails, und = Obl(), [], 'engine: %s: %s' % (type(e).__name__, e)
    return record(ct.name, ct.label() + ', every length', obl, fails, und, [lambda: ew_guard(ct, seed)])


def shuffle_guard(exe, seed):
    from . import hprop
    runs, f, t = hprop.native([exe], (seed, 18, 1), 200)
    if t:
        raise RuntimeError(t)
    return runs, f


def decide_shuffle(name, src, what, prove, args, exe, seed):
    """The shuffles for every length 2^k (or any table of pairs inside the array): the bounds obligations of the C10 proofs."""
    from . import hprop
    n, bad, und, kinds = hprop.attempt(prove, *args)
    mem = [x for x in bad if hprop.kind(x[0]) in ('bounds', 'uninitialised') or 'not modified' in x[0]]
    other = [x for x in bad if x not in mem]
    obl = Obl()
    obl.count['memory'] = kinds.get('bounds', 0) + kinds.get('uninitialised', 0)
    if other and not und:          # without the invariants the indices are not known
        und = 'not discharged: ' + other[0][0]
    return record(name, '%s in %s' % (what, src), obl, [x[0] for x in mem], und, [lambda: shuffle_guard(exe, seed)] if mem or und or args[1:] == (10,) else [])
