"""Running the real compiled code: replays of counterexamples and bounded stand-ins.
Every run happens in a forked child with arrays placed against inaccessible pages."""
import ctypes, mmap, os, pickle, signal, sys, time, traceback
import numpy as np

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PG = 4096


class Guarded:
    """A numpy array whose end (or start) touches an inaccessible page; optionally read-only."""

    def __init__(self, data, tail=True, readonly=False):
        data = np.ascontiguousarray(data)
        nb = data.nbytes
        pages = max(1, (nb + PG - 1) // PG)
        total = (pages + 2) * PG
        base = libc.mmap(None, total, 3, 0x22, -1, 0)
        self.base, self.total = base, total
        self.addr = base + PG + (pages * PG - nb if tail else 0)
        ctypes.memset(base + PG, 0xA5, pages * PG)
        buf = (ctypes.c_char * nb).from_address(self.addr) if nb else (ctypes.c_char * 0)()
        self.arr = np.frombuffer(buf, dtype=data.dtype).reshape(data.shape) if nb else data.copy()
        if nb:
            self.arr[...] = data
        libc.mprotect(base, PG, 0)
        libc.mprotect(base + PG + pages * PG, PG, 0)
        self.slack = (base + PG, self.addr - base - PG) if tail else (self.addr + nb, pages * PG - nb)
        if readonly:
            libc.mprotect(base + PG, pages * PG, 1)

    def canary_ok(self):
        a, n = self.slack
        return ctypes.string_at(a, n) == b'\xA5' * n

    @property
    def ptr(self):
        return ctypes.c_void_p(self.addr)

    def free(self):
        libc.munmap(self.base, self.total)


import json
LAST = mmap.mmap(-1, 1 << 20)          # shared with forked children: the input of the run in progress


def note(d):
    b = json.dumps(d, default=lambda x: x.tolist() if hasattr(x, 'tolist') else str(x)).encode()
    if len(b) > (1 << 20) - 8:
        b = json.dumps({k: v for k, v in d.items() if not hasattr(v, '__len__') or len(v) < 4096}, default=str).encode()[:(1 << 20) - 8]
    LAST[0:8] = len(b).to_bytes(8, 'little')
    LAST[8:8 + len(b)] = b


def last():
    n = int.from_bytes(LAST[0:8], 'little')
    try:
        return json.loads(LAST[8:8 + n].decode()) if n else {}
    except ValueError:
        return {}


def search(fn, *args, timeout=120):
    """A native search in a child: (runs, failing input or None, trouble or None)."""
    from . import par
    LAST[0:8] = bytes(8)
    timeout = par.left(timeout)
    st, v = isolated(fn, *args, timeout=timeout)
    if st == 'ok':
        return v[0], v[1], None
    if st == 'signal':
        d = last()
        names = {4: 'SIGILL (undefined behaviour trap)', 11: 'SIGSEGV (access outside the arrays)', 7: 'SIGBUS', 8: 'SIGFPE'}
        if d:
            d['observed'] = 'the run ends with ' + names.get(v, 'signal %d' % v)
            return 0, d, None
        return 0, None, 'signal %d' % v
    if st == 'timeout':
        d = last()
        return 0, None, 'timeout' + (' in ' + json.dumps(d)[:300] if d else '')
    return 0, None, v


def isolated(fn, *args, timeout=120):
    """Run fn(*args) in a forked child.  ('ok', value) | ('signal', n) | ('timeout', None) | ('error', text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout) + 1)
            try:
                v = ('ok', fn(*args))
            except BaseException:
                v = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return ('timeout', None) if s == signal.SIGALRM else ('signal', s)
    try:
        return pickle.loads(b)
    except Exception:
        return ('error', 'no result')


def call(lib, name, arrays, readonly=(), ints=None, order=None, tail=True):
    """Call name(...) with guarded copies of the arrays.  order: list of ('a',i) or ('i',v)."""
    gs = [Guarded(a, tail, i in readonly) for i, a in enumerate(arrays)]
    args = []
    for k, v in order:
        args.append(gs[v].ptr if k == 'a' else v)
    f = getattr(lib, name)
    f.restype = None
    f(*args)
    out = [g.arr.copy() for g in gs]
    ok = all(g.canary_ok() for g in gs)
    for g in gs:
        g.free()
    return out, ok
