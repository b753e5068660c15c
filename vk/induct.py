"""Inductive loop rule over a symbolic number of iterations, shared by the C and the AVX2 executors.

At an undecided loop-exit test the state is generalised to iteration k: every slot is
slot0 + delta*k (proved inductive by executing the body once from the generic state), slots
that are not of this shape are forgotten.  Arrays are symbolic regions: a cell touched at
offset o(k) must be inside the array, and distinct from every cell written before (earlier
segments, earlier iterations, earlier in this iteration), all by z3.  The loop leaves a
summary 'for all k in [0,K): cell o_j(k) := v_j(k)'."""
import z3
from .terms import Lin, Undecided, Refuted
from .irexec import Region, Ptr, MAYBE
from . import logic


class SymCells(dict):
    def __init__(self, reg):
        self.reg = reg

    def __missing__(self, key):
        raise Undecided('symbolic cell')


class SymRegion(Region):
    """Array of symbolic length: nbytes is a term; elements have range [lo,hi]."""
    __slots__ = ('nbytes', 'lo', 'hi', 'offs', 'init', 'segs', 'epoch', 'mkmf')

    def __init__(self, name, es, nbytes, lo, hi, writable=True):
        Region.__init__(self, name, es, None, writable)
        self.cells = SymCells(self)
        self.nbytes = nbytes
        self.lo = lo
        self.hi = hi
        self.offs = {}
        self.init = {}
        self.segs = []
        self.epoch = 0
        self.hook = self

    # -------------------------------------------------------- cells
    def touch(self, ex, o, where):
        c = ex.ctx
        key = c.key(o)
        if key in self.cells:
            return key
        H = hyps(ex)
        ok = logic.prove(c, H, lambda t: z3.And(t.lin(o) >= 0, t.lin(o) + self.es <= t.lin(self.nbytes)))
        if not ok:
            ex.obl.fail('memory', 'access of %s not proved in bounds at %s (offset %r)' % (self.name, where, o), region=self.name)
            raise Undecided('possible out-of-bounds access of %s' % self.name)
        ex.obl.ok('memory')
        for k2, o2 in self.offs.items():
            if not apart(ex, H, o, o2, self.es):
                raise Undecided('possible overlap in ' + self.name)
        for seg in self.segs:
            for w, val, kv, K in seg:
                if kv is None:
                    if not apart(ex, H, o, w, self.es):
                        raise Undecided('cell of %s accessed after an earlier write' % self.name)
                else:
                    k2 = c.var('k2#%d' % c.n_atoms, 0, 1 << 40)
                    w2 = subst(c, w, kv, k2)
                    H2 = H + [lambda t: t.lin(c.sub(K, k2)) >= 1]
                    if not apart(ex, H2, o, w2, self.es):
                        raise Undecided('cell of %s accessed after an earlier loop wrote it' % self.name)
        v = c.var('%s<%d>%s' % (self.name, self.epoch, key), self.lo, self.hi)
        self.offs[key] = o
        self.init[key] = v
        dict.__setitem__(self.cells, key, v)
        return key

    def load(self, ex, r, o, size, where):
        c = ex.ctx
        es = self.es
        if size % es:
            raise Undecided('sub-element access')
        vals = [self.cells[self.touch(ex, c.add(o, j * es), where)] for j in range(size // es)]
        if len(vals) == 1:
            return vals[0]
        acc = 0
        for j, v in enumerate(vals):
            acc = c.add(acc, c.mulc(c.unsigned(v, 8 * es) if j < len(vals) - 1 else v, 1 << (8 * es * j)))
        return acc

    def store(self, ex, r, o, size, v, where):
        c = ex.ctx
        if not self.writable:
            ex.obl.fail('memory', 'write to read-only %s at %s' % (self.name, where), region=self.name)
            raise Refuted('write to read-only ' + self.name)
        es = self.es
        if size % es or isinstance(v, Ptr):
            raise Undecided('sub-element store')
        for j in range(size // es):
            key = self.touch(ex, c.add(o, j * es), where)
            x = v if size == es else c.floordiv(v, 1 << (8 * es * j))
            x = c.signed(x, 8 * es)
            if ex.journal is not None:
                ex.journal.append((self, key, self.cells[key]))
            dict.__setitem__(self.cells, key, x)
            self.written = True

    # -------------------------------------------------------- epochs
    def snapshot(self):
        return dict(self.cells), dict(self.offs), dict(self.init), self.epoch

    def restore(self, s):
        self.cells.clear()
        self.cells.update(s[0])
        self.offs, self.init, self.epoch = dict(s[1]), dict(s[2]), s[3]

    def flush(self, c, kv=None, K=None):
        """Close the current epoch: its written cells become a segment."""
        seg = []
        for key, o in self.offs.items():
            v = self.cells[key]
            if not same(c, v, self.init[key]):
                seg.append((o, v, kv, K))
        out = (seg, dict(self.offs), dict(self.init))
        self.cells.clear()
        self.offs = {}
        self.init = {}
        self.epoch += 1
        return out


def same(c, a, b):
    return a is b or (isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and c.key(a) == c.key(b))


def hyps(ex):
    # data-dependent path conditions are left out: a cell touched in one branch is used in the other
    return list(ex.facts)


def apart(ex, H, o1, o2, es):
    c = ex.ctx
    d = c.sub(o1, o2)
    lo, hi = c.range(d)
    if lo >= es or hi <= -es:
        return True
    if type(d) is int:
        return False
    return logic.prove(c, H, lambda t: z3.Or(t.lin(d) >= es, t.lin(d) <= -es))


def subst(c, L, var, val):
    """Substitute an atom in a linear term (the atom may only occur linearly)."""
    if type(L) is int:
        return L
    (a, one), = var.t.items()
    for b in L.t:
        if b is not a and b.kind not in ('var',) and mentions(b, a):
            return deep(c, L, a, val)
    k = L.t.get(a)
    if not k:
        return L
    t = dict(L.t)
    del t[a]
    return c.add(Lin(t, L.c) if t else L.c, c.mulc(val, k))


def mentions(b, a, memo=None):
    if b is a:
        return True
    if not b.args:
        return False
    for x in b.args:
        if isinstance(x, Lin) and any(mentions(y, a) for y in x.t):
            return True
    return False


def deep(c, L, a, val):
    r = L.c
    for b, k in L.t.items():
        if b is a:
            r = c.add(r, c.mulc(val, k))
        elif b.kind == 'var' or not mentions(b, a):
            r = c.add(r, c.mulc(c.lin(b), k))
        else:
            args = [deep(c, x, a, val) if isinstance(x, Lin) else x for x in b.args]
            f = {'fdiv': c.floordiv, 'tdiv': c.tdiv, 'neg': c.isneg, 'eqz': c.iszero, 'mul': c.mul, 'ite': c.ite}.get(b.kind)
            if f is None:
                raise Undecided('substitution')
            r = c.add(r, c.mulc(f(*args), k))
    return r


def delta(c, a, b):
    """b - a when it is a constant; None when unchanged; MAYBE otherwise."""
    if a is b:
        return 0
    if a is None or b is None or a is MAYBE or b is MAYBE or isinstance(a, str) or isinstance(b, str):
        return MAYBE
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            d = c.sub(b.o, a.o)
            return d if type(d) is int else MAYBE
        return MAYBE
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
        return MAYBE
    d = c.sub(b, a)
    return d if type(d) is int else MAYBE


def shift(c, a, d, k):
    if d is MAYBE:
        return MAYBE
    if type(d) is int and d == 0:
        return a
    if isinstance(a, Ptr):
        return Ptr(a.r, c.add(a.o, c.mulc(k, d)))
    return c.add(a, c.mulc(k, d))


def run_loop(ex, S0, cond, body, regions, bits=None):
    """S0: list of slot values at the cut point.  cond(S) -> (term c, S after the test);
    body(S) -> slot list at the cut point after one iteration, executed with the test true
    (c == stay).  `stay` is the value of c that continues.  Returns (S at exit)."""
    c = ex.ctx
    ex.loops += 1
    lid = ex.loops
    MAXK = (1 << 32) - 1      # justified below: the test fails at MAXK
    saved_obl = ex.obl
    # ---- trial iteration
    # the current epoch's cells are closed first, so that the loop starts from a clean epoch
    pre = {}
    for r in regions:
        seg, offs, init = r.flush(c)
        r.segs.append(seg)
        ex.trace.append(('seg', r, seg, offs, init))
    snaps = [(r, r.snapshot()) for r in regions]

    def rollback():
        for r, s in snaps:
            r.restore(s)

    from .irexec import Obl
    ex.obl = Obl()
    if ex.pathc:
        raise Undecided('loop under a data-dependent condition')
    facts0 = ex.facts
    try:
        ct, stay, S = cond(list(S0))
        ex.facts = facts0 + logic.path_hyps([(ct, stay)])
        S1 = body(S)
    finally:
        ex.facts = facts0
        ex.obl = saved_obl
        rollback()
    D = [delta(c, a, b) for a, b in zip(S0, S1)]
    k = c.var('k#%d' % lid, 0, MAXK)
    km1 = c.sub(k, 1)

    def at(idx):
        return [shift(c, a, d, idx) for a, d in zip(S0, D)]

    for attempt in range(6):
        facts = list(ex.facts)
        ex.obl = Obl()
        try:
            extra = loop_facts(ex, at, cond, k, facts, rollback)
            ex.facts = facts + extra
            ct, stay, S = cond(at(k))
            ex.facts = ex.facts + logic.path_hyps([(ct, stay)])
            S1 = body(S)
            want = at(c.add(k, 1))
            H = hyps(ex)
            if not logic.prove(c, H, lambda t: t.lin(k) + 1 <= MAXK):
                raise Undecided('no bound on the number of iterations')
            bad = []
            for i, (w, g) in enumerate(zip(want, S1)):
                if w is MAYBE or w is g:
                    continue
                if isinstance(w, Ptr) or isinstance(g, Ptr):
                    ok = isinstance(w, Ptr) and isinstance(g, Ptr) and w.r is g.r and logic.prove_zero(c, H, c.sub(w.o, g.o))
                elif isinstance(w, (int, Lin)) and isinstance(g, (int, Lin)):
                    d = c.sub(w, g)
                    ok = logic.prove_zero(c, H, d)
                    if not ok and bits and bits[i]:
                        M = 1 << bits[i]
                        ok = logic.prove(c, H, lambda t: t.lin(d) % M == 0)
                else:
                    ok = w is None and g is None or w == g
                if not ok:
                    bad.append(i)
            if bad:
                for i in bad:
                    D[i] = MAYBE
                rollback()
                continue
            # ---- frame: cells of different iterations are distinct
            k2 = c.var('j#%d' % lid, 0, MAXK)
            H2 = H + [lambda t: t.lin(k2) < t.lin(k)]
            for r in regions:
                W = [(key, o) for key, o in r.offs.items() if not same(c, r.cells[key], r.init[key])]
                for key, o in r.offs.items():
                    for wk, w in W:
                        if not apart(ex, H2, o, subst(c, w, k, k2), r.es):
                            raise Undecided('iterations are not independent in ' + r.name)
            break
        finally:
            body_obl, ex.obl = ex.obl, saved_obl
            ex.facts = facts
    else:
        raise Undecided('no inductive invariant')
    saved_obl.merge(body_obl)
    saved_obl.ok('invariant', sum(1 for d in D if d is not MAYBE) + 1)
    K = c.var('K#%d' % lid, 0, MAXK)
    for r in regions:
        seg, offs, init = r.flush(c, k, K)
        r.segs.append(seg)
        ex.trace.append(('loop', r, seg, offs, init, k, K))
    # ---- exit
    extra = loop_facts(ex, at, cond, K, list(ex.facts), lambda: None)
    ex.facts = ex.facts + extra
    ct, stay, S = cond(at(K))
    ex.facts = ex.facts + [lambda t, ct=ct, stay=stay: t.lin(ct) == 1 - stay]
    return S


def loop_facts(ex, at, cond, k, facts, rollback):
    """The test was true in the previous iteration, and for tests '!= 0' the sign is kept."""
    c = ex.ctx
    out = []
    saved = ex.facts
    km1 = c.sub(k, 1)
    # evaluated under k >= 1
    try:
        ex.facts = facts + [lambda t: t.lin(k) >= 1]
        cp, stay, _ = cond(at(km1))
        out.append(lambda t: z3.Or(t.lin(k) == 0, t.lin(cp) == stay))
        # 'x != 0' tests: linear x with step s that cannot jump over zero
        ck, stay, _ = cond(at(k))
        if isinstance(ck, Lin) and len(ck.t) == 1:
            (a, cf), = ck.t.items()
            if a.kind == 'eqz':
                L = a.args[0]
                (ka, _), = k.t.items()
                s = L.t.get(ka)
                if s and not any(x is not ka and mentions(x, ka) for x in L.t if x.kind != 'var'):
                    L0 = subst(c, L, k, 0)
                    H = facts
                    if abs(s) == 1 or logic.prove(c, H, lambda t: t.lin(L0) % abs(s) == 0):
                        if s > 0 and logic.prove(c, H, lambda t: t.lin(L0) <= 0):
                            out.append(lambda t: t.lin(L) <= 0)
                        elif s < 0 and logic.prove(c, H, lambda t: t.lin(L0) >= 0):
                            out.append(lambda t: t.lin(L) >= 0)
    finally:
        ex.facts = saved
        rollback()
    return out
