"""Builds what a check needs from /repo's current working tree: LLVM IR for the verifier, shared
objects for replaying inputs against the real code. Everything goes to a scratch directory."""
import os, subprocess, hashlib, tempfile, shutil, atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUB = ['include', 'core/drivers', 'core/basic_statistics', 'core/optimization', 'core/utilities', 'core/dynamic_dispatch', 'core/csv',
       'core/metrics', 'core/linear_model', 'core/data_management', 'core/factorization', 'core/clustering', 'core/decision_forest',
       'core/decision_forest/tree', 'core/nlls', 'core/nearest_neighbors', 'core/svm', 'core/kernel_functions', 'core/interpolation',
       'core/approximate_neighbors', 'core/dimension_reduction']


class BuildError(Exception):
    pass


def incs():
    r = REPO + '/source/'
    l = ['-I' + r + d for d in SUB]
    l += ['-I%s/external/%s' % (REPO, d) for d in ('Lbfgsb.3.0', 'RALFit', 'RALFit/libRALFit/include', 'kernel-templates')]
    l += ['-I' + VERIF + '/stubs', '-I/usr/include/x86_64-linux-gnu/openblas-pthread']
    return l


DEFS = ['-DARCH_generic', '-DZNVER_MAX=generic', '-Dgeneric_AVAILABLE', '-DAOCLDA_VERSION_STRING="x"', '-DAOCLDA_GIT_COMMIT="u"',
        '-DINT_LIB="LP64"', '-w']
PASSES = 'function(sroa,simplifycfg,early-cse,simplifycfg,loop-simplify)'
_dir = None


def workdir():
    global _dir
    if _dir is None:
        _dir = os.environ.get('VERIF_WORK') or tempfile.mkdtemp(prefix='verif.')
        os.makedirs(_dir, exist_ok=True)
        if not os.environ.get('VERIF_WORK'):
            pid = os.getpid()
            d = _dir

            def clean():
                if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
            atexit.register(clean)
            os.environ['VERIF_WORK_CHILD'] = _dir
    return _dir


def src(p):
    if p.startswith('/'): return p
    if p.startswith('units/'): return os.path.join(VERIF, p)
    return os.path.join(REPO, 'source/core', p)


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r


def ir(unit, extra=()):
    """path of the optimised-for-reading IR of one translation unit of /repo (or of a /verif unit that includes /repo headers)"""
    p = src(unit)
    tag = hashlib.sha1((p + repr(extra)).encode()).hexdigest()[:10]
    out = os.path.join(workdir(), os.path.basename(unit) + '.' + tag + '.ll')
    if os.path.exists(out): return out
    std = [] if p.endswith('.c') else ['-std=c++17']
    raw = out + '.raw.%d' % os.getpid()
    run(['clang-18'] + std + incs() + ['-march=x86-64', '-mavx2', '-mfma'] + DEFS + list(extra) +
        ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-S', '-emit-llvm', p, '-o', raw])
    run(['opt-18', '-S', '-passes=' + PASSES, raw, '-o', out + '.tmp%d' % os.getpid()])
    os.unlink(raw)
    os.rename(out + '.tmp%d' % os.getpid(), out)
    return out


def so(name, units, extra=(), omp=True, asan=False, libs=()):
    out = os.path.join(workdir(), name + '.so')
    if os.path.exists(out): return out
    procs = []; objs = []
    for u in units:
        p = src(u)
        o = out + '.' + hashlib.sha1(p.encode()).hexdigest()[:8] + '.o'
        cc = 'gcc' if p.endswith('.c') else 'g++'
        cmd = [cc] + ([] if p.endswith('.c') else ['-std=c++17']) + incs() + ['-march=x86-64', '-mavx2', '-mfma'] + DEFS + \
              ['-O1', '-fPIC', '-D_GLIBCXX_ASSERTIONS'] + (['-fopenmp'] if omp else []) + \
              (['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []) + list(extra) + ['-c', p, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True))); objs.append(o)
    for cmd, p in procs:
        e = p.communicate()[1]
        if p.returncode: raise BuildError(' '.join(cmd) + '\n' + e[-4000:])
    run(['g++', '-shared', '-o', out] + objs + (['-fopenmp'] if omp else []) + (['-fsanitize=address'] if asan else []) +
        ['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy'] + list(libs))
    for o in objs: os.unlink(o)
    return out
