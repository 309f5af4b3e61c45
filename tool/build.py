"""Turn /repo's current sources into LLVM IR (no code of /repo is run)."""
import os, sys, glob, shutil, subprocess, tempfile, atexit, concurrent.futures
import irload

REPO = os.environ.get('VERIF_REPO', '/repo')
_W = None


def workdir():
    global _W
    if _W is None:
        _W = tempfile.mkdtemp(prefix='v842.')
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(_W, ignore_errors=True) if os.getpid() == pid else None)
        g = os.path.join(_W, 'gen', 'lib842')
        os.makedirs(g)
        with open(os.path.join(g, 'config.h'), 'w') as f:
            f.write('#ifndef LIB842_CONFIG_H\n#define LIB842_CONFIG_H\n#define LIB842_HAVE_OPENCL\n#endif\n')
        u = os.path.join(_W, 'shim', 'uthash', 'src')
        os.makedirs(u)
        for h in ('uthash.h', 'utlist.h'):
            shutil.copy('/usr/include/' + h, u)
    return _W


DEFS = ['-DCL_HPP_ENABLE_EXCEPTIONS', '-DCL_HPP_MINIMUM_OPENCL_VERSION=120', '-DCL_HPP_TARGET_OPENCL_VERSION=120',
        '-DCL_TARGET_OPENCL_VERSION=120', '-DLIB842_HAVE_NUMA']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    # a fixed directory: the debug information has paths relative to it otherwise
    r = subprocess.run(cmd, cwd=workdir(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (' '.join(cmd), r.stderr.decode('utf8', 'replace')[-4000:]))
    return r.stdout


def cflags(src):
    w = workdir()
    if src.endswith('.c'):
        c = ['clang', '-std=gnu11']
    else:
        c = ['clang++', '-std=gnu++17']
    return c + ['-I' + REPO + '/include', '-I' + w + '/gen', '-I' + w + '/shim', '-w'] + DEFS


def ir(src, passes='function(sroa,simplifycfg)', extra=(), tag='', text=None):
    """path of optimised textual IR for one source file"""
    w = workdir()
    base = os.path.join(w, src.replace(REPO, '').strip('/').replace('/', '_') + tag)
    if not os.path.isabs(src):
        src = os.path.join(REPO, src)
    ll, ol = base + '.ll', base + '.o.ll'
    if os.path.exists(ol):
        return ol
    run(cflags(src) + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-fno-stack-protector',
                       '-S', '-emit-llvm', src, '-o', ll] + list(extra))
    run(['opt', '-S', '-passes=' + passes, ll, '-o', ol])
    return ol


def irs(srcs, **kw):
    workdir()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: ir(s, **kw), srcs))


SERIAL = ['src/serial/842_decompress.c', 'src/serial/842_compress.c']
OPT = ['src/serial_optimized/842_decompress.cpp', 'src/serial_optimized/842_compress.cpp',
       'src/serial_optimized/bitstream.cpp']
STREAM = ['src/stream/DataCompressionStream.cpp', 'src/stream/DataDecompressionStream.cpp', 'src/stream/numa_spread.cpp']
OCL = ['src/ocl/cl842decompress.cpp']


def modules(srcs, **kw):
    return [irload.load(p) for p in irs(srcs, **kw)]


def merged(srcs, **kw):
    """functions and globals of several modules, definitions winning over declarations"""
    funcs, gv = {}, {}
    for m in modules(srcs, **kw):
        for n, f in m.funcs.items():
            if n not in funcs or funcs[n].decl:
                funcs[n] = f
        for n, g in m.gvars.items():
            if n not in gv or gv[n].decl:
                gv[n] = g
    return funcs, gv
