"""Builds everything the checks need from /repo's current working tree, in a scratch directory."""
import os, shutil, subprocess, tempfile, atexit, re, ctypes

REPO = os.environ.get('VK_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CFLAGS = ['-DNDEBUG', '-D_DEFAULT_SOURCE', '-std=c99']
PARAMS = {16: 1212, 256: 1002, 512: 1003, 1024: 1014}
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vk-')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def sh(cmd, cwd=None, timeout=300, check=True, input=None):
    r = subprocess.run(cmd, cwd=cwd, timeout=timeout, capture_output=True, text=True, input=input)
    if check and r.returncode:
        raise BuildError('%s: %s' % (' '.join(cmd), r.stderr[-2000:]))
    return r


def makefile_params():
    """The (n, psi) pairs the Makefile passes to the generators."""
    out = {}
    try:
        s = open(os.path.join(SRC, 'Makefile')).read()
        for m in re.finditer(r'make_tables\s+(\d+)\s+(\d+)', s):
            out[int(m.group(1))] = int(m.group(2))
    except OSError:
        pass
    return out or dict(PARAMS)


_src = None


def source_tree():
    """A scratch copy of src/ with the generated tables, as the build makes them."""
    global _src
    if _src is None:
        d = os.path.join(scratch(), 'src')
        shutil.copytree(SRC, d, ignore=shutil.ignore_patterns('*.o'))
        for g in ('make_tables', 'make_red_tables', 'make_bitrev_table'):
            sh(['gcc', '-O2'] + CFLAGS + ['-o', g, g + '.c'], cwd=d)
        for n in (16, 256, 512, 1024):
            for t in ('ntt%d_tables.c' % n, 'ntt%d_tables.h' % n, 'ntt_red%d_tables.c' % n, 'ntt_red%d_tables.h' % n,
                      'bitrev%d_table.c' % n, 'bitrev%d_table.h' % n):
                try:
                    if not t.startswith('bitrev'):
                        os.unlink(os.path.join(d, t))
                except OSError:
                    pass
            psi = makefile_params().get(n, PARAMS[n])
            sh(['./make_tables', str(n), str(psi)], cwd=d)
            sh(['./make_red_tables', str(n), str(psi)], cwd=d)
            sh(['./make_bitrev_table', str(n)], cwd=d)
        _src = d
    return _src


_ir = {}


def ir_text(cfile, extra=()):
    key = (cfile, tuple(extra))
    if key not in _ir:
        d = source_tree()
        r = sh(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w'] + CFLAGS + list(extra) +
               ['-S', '-emit-llvm', '-o', '-', cfile], cwd=d)
        _ir[key] = r.stdout
    return _ir[key]


def module(*cfiles, extra=()):
    from .irparse import parse_module, Module
    mod = Module()
    for f in cfiles:
        parse_module(ir_text(f, extra), mod)
    return mod


# naive_ntt.c defines bitrev_shuffle and shuffle_with_table again, so the naive family is a library of its own
LIBC = ['ntt.c', 'ntt_red.c', 'ntt_asm.S']
FAM = ['ntt%d', 'ntt_red%d', 'ntt_red_asm%d', 'ntt%d_tables', 'ntt_red%d_tables', 'bitrev%d_table']


def all_lib_sources():
    return LIBC + ['%s.c' % (k % n) for n in (16, 256, 512, 1024) for k in FAM]


def naive_sources():
    return ['naive_ntt.c'] + ['%s.c' % (k % n) for n in (16, 256, 512, 1024) for k in ('naive_ntt%d', 'ntt%d_tables', 'bitrev%d_table')]


_so = {}


def shared_lib(files=None, flags=('-O2',), name='lib'):
    """Shared library of the real code compiled with gcc, for replays and conformance runs."""
    files = files or all_lib_sources()
    key = (tuple(files), tuple(flags))
    if key not in _so:
        d = source_tree()
        so = os.path.join(scratch(), '%s%d.so' % (name, len(_so)))
        sh(['gcc', '-w', '-fPIC', '-shared'] + list(flags) + CFLAGS + ['-o', so] + list(files), cwd=d)
        _so[key] = ctypes.CDLL(so)
    return _so[key]
