"""Runs independent proof tasks in forked worker processes."""
import os, pickle, select, signal, sys, time, traceback


END = None              # a quick run gives its answer before this time
PROOF_END = None        # and leaves the time after this one to runs of the code


def budget(proof, total):
    global END, PROOF_END
    END, PROOF_END = time.time() + total, time.time() + proof


def left(t):
    return t if END is None else max(3, min(t, END - time.time()))


def run(tasks, jobs=None, timeout=600, deadline=None):
    """tasks: list of (key, fn, args).  Returns {key: ('ok', value) | ('error', text) | ('timeout', None) | ('signal', n)}."""
    deadline = deadline or END
    jobs = jobs or min(8, os.cpu_count() or 4)
    todo = list(tasks)[::-1]
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            key, fn, args = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    sys.setrecursionlimit(200000)
                    from . import logic
                    for k in logic.STATS:
                        logic.STATS[k] = type(logic.STATS[k])(0)
                    try:
                        v = ('ok', fn(*args), dict(logic.STATS))
                    except BaseException:
                        v = ('error', traceback.format_exc(), None)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(v, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [key, pid, time.time(), b'']
        now = time.time()
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            b = os.read(r, 1 << 20)
            L = live[r]
            if b:
                L[3] += b
                continue
            os.close(r)
            _, st = os.waitpid(L[1], 0)
            del live[r]
            if os.WIFSIGNALED(st):
                out.setdefault(L[0], ('signal', os.WTERMSIG(st)))
                continue
            try:
                v = pickle.loads(L[3])
                out[L[0]] = v[:2]
                if v[2]:
                    from . import logic
                    for k, x in v[2].items():
                        logic.STATS[k] = logic.STATS.get(k, 0) + x
            except Exception:
                out[L[0]] = ('error', 'no result')
        for r in list(live):
            L = live[r]
            if now - L[2] > timeout or (deadline and now > deadline):
                try:
                    os.killpg(L[1], signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(L[1], signal.SIGKILL)
                    except OSError:
                        pass
                out[L[0]] = ('timeout', None)
        if deadline and now > deadline and todo:
            for key, _, _ in todo:
                out[key] = ('timeout', None)
            todo = []
    return out
