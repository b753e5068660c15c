"""Loops that were rewritten: when the invariants given for the code as it is do not fit, the strongest inductive choice
among candidate predicates is searched (drop every candidate that is not established or not kept, until none fails).
The proof that is accepted is an ordinary one: every obligation, with the remaining candidates as invariants."""
import os, re, time
import z3
from .hoare import Spec
from .terms import Undecided

LOOPS = 12
SEARCH = True


class Guess:
    def __init__(self):
        self.drop, self.var, self.timeout = set(), {}, 1500

    def spec(self, sp, cands):
        """cands(view) -> ([(name, thunk)], [variant thunks])"""
        def inv(o):
            def f(w):
                out = []
                for nm, g in cands(w)[0]:
                    if (o, nm) in self.drop:
                        continue
                    try:
                        out.append((nm, g()))
                    except (Undecided, AttributeError, KeyError, z3.Z3Exception):
                        self.drop.add((o, nm))
                        out.append((nm, z3.BoolVal(False)))
                return out
            return f

        def var(o):
            def f(w):
                vs = cands(w)[1]
                while self.var.get(o, 0) < len(vs):
                    try:
                        return vs[self.var.get(o, 0)]()
                    except (Undecided, AttributeError, KeyError, z3.Z3Exception):
                        self.var[o] = self.var.get(o, 0) + 1
                return z3.IntVal(0)
            return f
        n = Spec({o: dict(inv=inv(o), var=var(o)) for o in range(LOOPS)}, unsigned=sp.unsigned, signed=sp.signed, lemmas=sp.lemmas, unroll=sp.unroll)
        return n


def prove(prove1, searchable=True, limit=200):
    """prove1(None) proves with the given invariants; prove1(Guess) with candidates."""
    h = err = None
    try:
        h = prove1(None)
        if all(o[1] for o in h.obls):
            return h
    except Undecided as e:
        err = e
    g = search(prove1, limit) if searchable and SEARCH else None
    if g is not None:
        return g
    if err is not None:
        raise err
    return h


def search(prove1, limit):
    G, t0 = Guess(), time.time()
    while time.time() - t0 < limit:
        try:
            g = prove1(G)
        except Undecided as e:
            if os.environ.get('VK_DEBUG'):
                print('search ends:', e, flush=True)
            return None
        bad = [o for o in g.obls if not o[1]]
        if not bad:
            return g
        n0 = (len(G.drop), sum(G.var.values()))
        invs = [re.search(r'loop (\d+) (?:keeps|establishes) invariant "(.*)"', o[0]) for o in bad]
        first = [(int(m.group(1)), m.group(2)) for m, o in zip(invs, bad) if m and 'establishes' in o[0]]
        got = first or [(int(m.group(1)), m.group(2)) for m in invs if m]
        if os.environ.get('VK_DEBUG'):
            print('%.0fs' % (time.time() - t0), 'drop', got, 'other', [o[0] for o in bad if 'invariant' not in o[0]], flush=True)
        G.drop |= set(got)
        if not got:
            for o in {int(m.group(1)) for m in (re.search(r'loop (\d+) terminates', o[0]) for o in bad) if m}:
                G.var[o] = G.var.get(o, 0) + 1
                if G.var[o] > 12:
                    return None
        if (len(G.drop), sum(G.var.values())) == n0:
            if G.timeout > 2000:
                return None
            G.timeout = 20000
    return None
