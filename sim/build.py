"""Builds (on demand, content-hashed, under /verif/build): the file seam and the
Fortran extensions of the tree under test."""
import fcntl, hashlib, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')

def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def fsim():
    src = os.path.join(HERE, 'fsim.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    so = os.path.join(BUILD, 'libfsim-%s.so' % h)
    if not os.path.exists(so):
        l = _lock()
        if not os.path.exists(so):
            subprocess.run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-fPIC', '-shared', '-w', '-o', so + '.tmp', src, '-ldl'], check=True)
            os.chmod(so + '.tmp', 0o755)
            os.rename(so + '.tmp', so)
        l.close()
    return so

def _src_hash(repo):
    d = os.path.join(repo, 'src', '_ext_src')
    h = hashlib.sha256()
    for n in sorted(os.listdir(d)):
        if n == 'Makefile' or n.endswith('.f90'):
            h.update(n.encode() + b'\0' + open(os.path.join(d, n), 'rb').read() + b'\0')
    return h.hexdigest()[:20]

def _stamp_ok(repo):
    """Are the extensions in the tree built from its current sources?"""
    d = os.path.join(repo, 'src', '_ext_src')
    try:
        want = {}
        for line in open(os.path.join(d, '.vp-stamp')):
            h, n = line.split()
            want[n] = h
        have = {n: hashlib.sha256(open(os.path.join(d, n), 'rb').read()).hexdigest()
                for n in os.listdir(d) if n == 'Makefile' or n.endswith('.f90')}
        return want == have and all(os.path.getsize(os.path.join(repo, 'src', 'pwtools', x)) > 0 for x in ('_flib.so', '_dcd.so'))
    except (OSError, ValueError):
        return False

def clean_env():
    e = dict(os.environ)
    for k in ('LD_PRELOAD', 'FSIM_CTL', 'PYTHONPATH'):
        e.pop(k, None)
    e['PATH'] = os.path.dirname(sys.executable) + ':/usr/local/bin:/usr/bin:/bin'
    return e

def ext(repo):
    """Directory holding _flib.so and _dcd.so built from repo's current sources."""
    if _stamp_ok(repo):
        return os.path.join(repo, 'src', 'pwtools')
    h = _src_hash(repo)
    out = os.path.join(BUILD, 'ext-' + h)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    l = _lock()
    try:
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        import shutil, tempfile
        t = tempfile.mkdtemp(prefix='extbuild', dir=BUILD)
        try:
            os.makedirs(os.path.join(t, 'src', 'pwtools'))
            shutil.copytree(os.path.join(repo, 'src', '_ext_src'), os.path.join(t, 'src', '_ext_src'),
                            ignore=shutil.ignore_patterns('*.so', '.vp-stamp'))
            e = clean_env(); e['HOME'] = t; e['TMPDIR'] = t
            p = subprocess.run(['make', '-C', os.path.join(t, 'src', '_ext_src'), 'gfortran-omp', 'ARCH=-march=x86-64-v2'],
                               env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            so = [os.path.join(t, 'src', 'pwtools', x) for x in ('_flib.so', '_dcd.so')]
            if not all(os.path.exists(x) for x in so):
                raise RuntimeError('extension build failed:\n' + p.stdout.decode()[-3000:])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for x in so:
                shutil.copy(x, out)
            open(os.path.join(out, 'ok'), 'w').close()
        finally:
            shutil.rmtree(t, ignore_errors=True)
    finally:
        l.close()
    return out

class Finder:
    """Maps pwtools._flib/_dcd to the freshly built extensions."""
    def __init__(self, d):
        self.d = d
    def find_spec(self, name, path=None, target=None):
        if name in ('pwtools._flib', 'pwtools._dcd'):
            import importlib.util
            return importlib.util.spec_from_file_location(name, os.path.join(self.d, name.split('.')[1] + '.so'))
        return None

def install_ext(repo):
    d = ext(repo)
    sys.meta_path.insert(0, Finder(d))
    return d

def simflib(repo):
    """_flib instrumented (each memory access a call) and linked with sim/simomp.c
    instead of libgomp: path of the extension."""
    csrc = os.path.join(HERE, 'simomp.c')
    f90 = os.path.join(repo, 'src', '_ext_src', 'flib.f90')
    h = hashlib.sha256(open(csrc, 'rb').read() + b'\0' + open(f90, 'rb').read() + b'v1').hexdigest()[:20]
    out = os.path.join(BUILD, 'simflib-%s.so' % h)
    if os.path.exists(out):
        return out
    import shutil, tempfile, sysconfig, numpy
    l = _lock()
    try:
        if os.path.exists(out):
            return out
        t = tempfile.mkdtemp(prefix='simflib', dir=BUILD)
        try:
            e = clean_env(); e['HOME'] = t; e['TMPDIR'] = t
            def run(*a):
                p = subprocess.run(a, cwd=t, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    raise RuntimeError('instrumented build failed: %s\n%s' % (' '.join(a), p.stdout.decode(errors='replace')[-3000:]))
            shutil.copy(f90, os.path.join(t, 'flib.f90'))
            run(sys.executable, '-m', 'numpy.f2py', 'flib.f90', '-m', '_flib', '--lower')
            fl = ['-O2', '-march=x86-64-v2', '-fPIC', '-fopenmp', '-D__OPENMP', '-fsanitize=thread', '-w']
            run('gfortran', '-c', '-x', 'f95-cpp-input', *fl, 'flib.f90', '-o', 'flib.o')
            objs = ['flib.o']
            for n in sorted(os.listdir(t)):
                if n.startswith('_flib-f2pywrappers'):
                    run('gfortran', '-c', '-O2', '-fPIC', '-w', n, '-o', n + '.o')
                    objs.append(n + '.o')
            import numpy.f2py
            f2 = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
            inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), '-I' + f2]
            run('gcc', '-c', '-O2', '-fPIC', '-w', *inc, '_flibmodule.c', '-o', 'mod.o')
            run('gcc', '-c', '-O2', '-fPIC', '-w', *inc, os.path.join(f2, 'fortranobject.c'), '-o', 'fo.o')
            run('gcc', '-c', '-O2', '-fPIC', '-w', *inc, csrc, '-o', 'simomp.o')
            # the Fortran objects only: their malloc etc. go to the arena
            run('ld', '-r', '-o', 'f.o', *objs)
            syms = ['malloc', 'calloc', 'free', 'realloc', 'memcpy', 'memmove', 'memset']
            red = []
            for s in syms:
                red += ['--redefine-sym', '%s=simomp_%s' % (s, s)]
            run('objcopy', *red, 'f.o')
            run('gcc', '-shared', '-o', 'out.so', 'f.o', 'mod.o', 'fo.o', 'simomp.o', '-Wl,-z,defs', '-Wl,-Bsymbolic',
                '-Wl,--unresolved-symbols=ignore-in-object-files', '-lgfortran', '-llapack', '-lm')
            os.rename(os.path.join(t, 'out.so'), out)
        finally:
            shutil.rmtree(t, ignore_errors=True)
    finally:
        l.close()
    return out
