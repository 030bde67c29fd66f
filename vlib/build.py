"""Out-of-tree builds of /repo's compiled parts, from its current working tree."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def _digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:20]


def _cached(kind, files, extra, make):
    """make(dir) fills dir; the result is kept under build/<kind>-<digest>."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, '%s-%s' % (kind, _digest(files, extra)))
    with open(os.path.join(BUILD, '.lock-' + kind), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.ok')):
            return d
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        make(tmp)
        open(os.path.join(tmp, '.ok'), 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return d


FLAGS = ['-O3', '-ffast-math', '-fopenmp']


def _ext_sources(name):
    e = os.path.join(REPO, 'edpyt')
    hdrs = glob.glob(e + '/*.h') + glob.glob(e + '/*.pxd')
    if name == 'psparse':
        return [e + '/psparse.pyx', e + '/cs_gaxpy.c'] + hdrs
    return [e + '/continued_fraction.pyx'] + hdrs


def build_ext(name, cc='gcc', flags=None, tag=''):
    """Compile edpyt/<name>.pyx; returns the path of the extension module."""
    import numpy as np
    flags = FLAGS if flags is None else flags
    srcs = _ext_sources(name)
    ext_suffix = sysconfig.get_config_var('EXT_SUFFIX')

    def make(d):
        e = os.path.join(REPO, 'edpyt')
        work = os.path.join(d, 'edpyt')
        os.makedirs(work)
        open(work + '/__init__.py', 'w').close()
        for s in srcs:
            shutil.copy(s, work)
        _run([sys.executable, '-m', 'cython', '-2', 'edpyt/%s.pyx' % name, '-o', 'edpyt/_%s.c' % name,
              '--module-name', 'edpyt._' + name], cwd=d)
        inc = ['-I' + np.get_include(), '-I' + sysconfig.get_paths()['include'], '-Iedpyt']
        csrc = ['edpyt/_%s.c' % name] + (['edpyt/cs_gaxpy.c'] if name == 'psparse' else [])
        _run([cc, '-shared', '-fPIC', '-w'] + flags + inc + csrc + ['-o', '_%s%s' % (name, ext_suffix)], cwd=d)
        shutil.rmtree(work)
    d = _cached('ext_' + name + tag, srcs, cc + ' '.join(flags), make)
    return os.path.join(d, '_%s%s' % (name, ext_suffix))


def build_ext_sched(name):
    """The same extension with every shared access and OpenMP construct handed to csrc/ompshim.c."""
    import numpy as np
    shim = os.path.join(VERIF, 'csrc', 'ompshim.c')
    srcs = _ext_sources(name) + [shim]
    ext_suffix = sysconfig.get_config_var('EXT_SUFFIX')

    def make(d):
        work = os.path.join(d, 'edpyt')
        os.makedirs(work)
        open(work + '/__init__.py', 'w').close()
        for s in srcs:
            shutil.copy(s, work)
        _run([sys.executable, '-m', 'cython', '-2', 'edpyt/%s.pyx' % name, '-o', 'edpyt/_%s.c' % name,
              '--module-name', 'edpyt._' + name], cwd=d)
        inc = ['-I' + np.get_include(), '-I' + sysconfig.get_paths()['include'], '-Iedpyt']
        csrc = ['edpyt/_%s.c' % name] + (['edpyt/cs_gaxpy.c'] if name == 'psparse' else [])
        objs = []
        for c in csrc:
            o = c[:-2] + '.o'
            _run(['gcc', '-c', '-fPIC', '-w', '-O0', '-fopenmp', '-fsanitize=thread'] + inc + [c, '-o', o], cwd=d)
            objs.append(o)
        _run(['gcc', '-c', '-fPIC', '-w', '-O2', 'edpyt/ompshim.c', '-o', 'edpyt/ompshim.o'], cwd=d)
        _run(['gcc', '-shared', '-Wl,-Bsymbolic'] + objs + ['edpyt/ompshim.o', '-lpthread', '-lm', '-o',
             '_%s%s' % (name, ext_suffix)], cwd=d)
        shutil.rmtree(work)
    d = _cached('sched_' + name, srcs, 'sched2', make)
    return os.path.join(d, '_%s%s' % (name, ext_suffix))


def build_backend(flags=('-funroll-loops', '-O3'), tag='', extra_src=(), link=()):
    """Shared library of edpyt_backend's C code, as build_shared.sh makes it."""
    b = os.path.join(REPO, 'edpyt_backend')
    srcs = sorted(glob.glob(b + '/[a-z]*.c'))
    hdrs = glob.glob(b + '/*.h')

    def make(d):
        for s in srcs + hdrs + list(extra_src):
            shutil.copy(s, d)
        cs = [os.path.basename(s) for s in srcs + list(extra_src) if s.endswith('.c')]
        _run(['gcc', '-shared', '-fPIC', '-w', '-Wl,-soname,libfit.so'] + list(flags) + cs + ['-o', 'libfit.so', '-lm'] + list(link), cwd=d)
    d = _cached('backend' + tag, srcs + hdrs + list(extra_src), ' '.join(flags) + ' '.join(link), make)
    return os.path.join(d, 'libfit.so')


def build_backend_pkg():
    """Directory with a package edpyt_backend: the Python files of the working tree, libfit.so and the cffi module."""
    lib = build_backend()
    b = os.path.join(REPO, 'edpyt_backend')
    files = glob.glob(b + '/*.h') + [f for f in glob.glob(b + '/*.py') if not os.path.basename(f).startswith('test')]

    def make(d):
        pkg = os.path.join(d, 'edpyt_backend')
        os.makedirs(pkg)
        for s in files + [lib]:
            shutil.copy(s, pkg)
        _run([sys.executable, '-c', "import runpy; runpy.run_path('fit.py')['ffi'].compile(verbose=False)"], cwd=pkg)
    # the run path fit.py writes into _fit is that of the temporary directory; libfit.so is loaded before it by soname
    return _cached('backendpkg', files + [lib], 'pkg', make)
