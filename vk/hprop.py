"""Shared driver for the properties decided by Hoare-style contracts: prove, else search natively for a failing input."""
import os, subprocess, time, traceback
from . import build, hoare
from .terms import Undecided, Refuted

DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drv')


def attempt(prove, *args):
    """-> (obligations, failed list, undecided text or None, kinds)"""
    try:
        h = prove(*args)
    except Undecided as e:
        return 0, [], 'outside the engine: %s' % e, {}
    except Refuted as e:
        return 1, [(str(e), 'refuted')], None, {}
    except RecursionError:
        return 0, [], 'recursion limit', {}
    except Exception:
        return 0, [], 'engine error: ' + traceback.format_exc()[-600:], {}
    finally:
        from . import logic
        for k, v in hoare.STATS.items():
            logic.STATS[k] = logic.STATS.get(k, 0) + v
        for k in hoare.STATS:
            hoare.STATS[k] = type(hoare.STATS[k])(0)
    bad = [(n, d) for n, ok, d in h.obls if not ok]
    kinds = {}
    for n, ok, d in h.obls:
        k = kind(n)
        kinds[k] = kinds.get(k, 0) + 1
    return len(h.obls), bad, None, kinds


def once(f):
    """A native search that runs at most once."""
    box = []

    def g():
        if not box:
            box.append(f())
        return box[0]
    return g


def proofs(tasks, timeout, nat):
    """tasks: (name, prove, args).  Proofs with the given invariants; where one fails the code is run, and only when no input
    fails other invariants are searched for."""
    from . import par, houdini
    got = {}
    todo = tasks
    for houdini.SEARCH in (False, True):
        res = par.run([(w, attempt, (f,) + a) for w, f, a in todo], timeout=timeout, deadline=par.PROOF_END)
        for w, _, _ in todo:
            st, v = res[w]
            got[w] = v if st == 'ok' else (0, [], 'proof task ended with ' + st, {})
        todo = [t for t in todo if got[t[0]][1] or got[t[0]][2]]
        if not todo or nat()[1] is not None:
            break
    return [(w,) + tuple(got[w]) for w, _, _ in tasks]


def kind(n):
    for w in ('overflow', 'terminat', 'invariant', 'inside', 'division', 'uninitialised'):
        if w in n:
            return {'terminat': 'termination', 'inside': 'bounds'}.get(w, w)
    return 'postcondition'


_exe = {}


def driver(name, sources, flags=('-O3',), cc='gcc', defs=(), src=None):
    """Builds /verif/vk/drv/<name>.c with the given real sources."""
    key = (name, tuple(sources), tuple(flags), tuple(defs))
    if key not in _exe:
        d = build.source_tree()
        exe = os.path.join(build.scratch(), '%s-%d' % (name, len(_exe)))
        objs = []
        for k, s in enumerate(sources):
            o = '%s-%d.o' % (exe, k)
            pre, more = None, []
            if isinstance(s, tuple):         # (source, prefix for its symbols, flags)
                s, pre, more = s
            build.sh(['gcc', '-w', '-c'] + list(flags) + build.CFLAGS + list(defs) + list(more) + ['-o', o, s], cwd=d)
            if pre:
                syms = [l.split()[-1] for l in build.sh(['nm', '--defined-only', '-g', o]).stdout.split('\n') if l.strip()]
                build.sh(['objcopy'] + ['--redefine-sym=%s=%s%s' % (x, pre, x) for x in syms] + [o])
            objs.append(o)
        build.sh(['gcc', '-w', '-O2', '-std=gnu11', '-I', d] + list(defs) + ['-o', exe, os.path.join(DRV, name + '.c')] + objs + ['-lm'], cwd=d)
        _exe[key] = exe
    return _exe[key]


UB = ('-O2', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero', '-fsanitize-undefined-trap-on-error')


def rundrv(exe, args, timeout=300):
    """-> (runs, failing input dict or None, trouble or None)"""
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return 0, None, 'native runs did not finish in %d s' % timeout
    out = r.stdout
    i = out.find('FAIL ')
    if i >= 0:
        d = dict(observed=out[i + 5:].split('\n', 1)[0])
        for l in out[i:].split('\n')[1:]:
            if ' ' in l:
                k, v = l.split(' ', 1)
                d[k] = v
        d['program'] = os.path.basename(exe) + ' ' + ' '.join(str(a) for a in args)
        return 0, d, None
    if r.returncode == 0:
        runs = 0
        for l in out.split('\n'):
            if l.startswith('runs '):
                runs = int(l.split()[1])
        return runs, None, None
    return 0, None, 'driver ended with status %d: %s' % (r.returncode, (out + r.stderr)[-300:])


def native(exes, args, timeout=300):
    from . import par
    runs = 0
    for e in exes:
        n, inp, tr = rundrv(e, args, par.left(timeout))
        if inp is not None:
            return runs, inp, None
        if tr:
            return runs, None, tr
        runs += n
    return runs, None, None


def resolve(function, contract, proofs, nat, bound, backend='vk Hoare engine + z3', also=False):
    """proofs: list of (name, obligations, failed, undecided, kinds).  nat: () -> (runs, input, trouble).  One or more records."""
    recs, bad = [], []
    for name, n, failed, und, kinds in proofs:
        if not failed and not und:
            recs.append(dict(function=name, contract=contract, status='proved', obligations=n, kinds=kinds, backend=backend))
        else:
            bad.append((name, failed, und))
    if not bad and not also:
        return recs
    runs, inp, trouble = nat()
    if inp is not None:
        ob = '; '.join((f[0][0] if f else u) for _, f, u in bad)[:500] or 'native conformance run of a proved contract'
        recs.append(dict(function=bad[0][0] if bad else function, contract=contract, status='violated', obligation=ob, input=inp,
                         output='; '.join('%s: %s' % (n, (['%s (%s)' % x for x in f[:4]], u)) for n, f, u in bad)[:3000]))
        return recs
    for name, f, u in bad:
        hard = [x for x in f if str(x[1]).startswith('refuted')]
        if hard and not u:
            recs.append(dict(function=name, contract=contract, status='violated', obligation=hard[0][0], input=None, output=[list(map(str, x)) for x in f[:10]]))
            continue
        why = u or 'obligations not discharged: ' + '; '.join('%s (%s)' % (x[0], str(x[1])[:80]) for x in f[:3])
        if trouble:
            why += '; native: ' + trouble
        recs.append(dict(function=name, contract=contract, status='bounded', bound=bound, why=why, runs=runs))
    return recs
