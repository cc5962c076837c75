"""Happens-before race analysis of the OpenMP kernels in the compiled extension.

The extension is rebuilt from the current Fortran source with ThreadSanitizer
and a pthread OpenMP runtime (gompstub.c) in a scratch directory, a scratch
copy of the package is pointed to it, and a script runs library functions.  An
execution without conflicting unordered accesses has one Mazurkiewicz trace:
all interleavings of its threads are equivalent to the one that was run.  A
racing pair is a witness for two inequivalent interleavings.  Returns None when
the instrumented build cannot be made or started here (no verdict)."""
import os, re, shutil, subprocess, sys, sysconfig
import mc

def _run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True,
                          stdin=subprocess.DEVNULL, timeout=200)

def build(d):
    import numpy, numpy.f2py
    ext = os.path.join(mc.SRC, '_ext_src')
    b = os.path.join(d, 'b'); os.makedirs(b)
    shutil.copy(os.path.join(ext, 'flib.f90'), b)
    f2src = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
    inc = ['-I' + numpy.get_include(), '-I' + sysconfig.get_path('include'), '-I' + f2src]
    cmds = [[sys.executable, '-m', 'numpy.f2py', 'flib.f90', '-m', '_flib', '--lower'],
            ['gfortran', '-x', 'f95-cpp-input', '-fPIC', '-O1', '-g', '-fopenmp', '-D__OPENMP', '-fsanitize=thread', '-c', 'flib.f90', '-o', 'flib.o'],
            ['gcc', '-fPIC', '-O1', '-g', '-fsanitize=thread', '-c', os.path.join(mc.VERIF, 'lib', 'gompstub.c'), '-o', 'gomp.o'],
            ['gcc', '-fPIC', '-O1'] + inc + ['-c', '_flibmodule.c', '-o', 'm.o'],
            ['gcc', '-fPIC', '-O1'] + inc + ['-c', os.path.join(f2src, 'fortranobject.c'), '-o', 'fo.o']]
    objs = ['flib.o', 'gomp.o', 'm.o', 'fo.o']
    for c in cmds:
        if _run(c, b).returncode != 0:
            return None
    for w in ('_flib-f2pywrappers.f', '_flib-f2pywrappers2.f90'):
        if os.path.exists(os.path.join(b, w)):
            if _run(['gfortran', '-fPIC', '-O1', '-c', w, '-o', w + '.o'], b).returncode != 0:
                return None
            objs.append(w + '.o')
    pk = os.path.join(d, 'src', 'pwtools')
    shutil.copytree(os.path.join(mc.SRC, 'pwtools'), pk, ignore=shutil.ignore_patterns('__pycache__', '_flib*.so', 'test'))
    r = _run(['gfortran', '-shared', '-fsanitize=thread'] + objs + ['-llapack', '-o', os.path.join(pk, '_flib.so')], b)
    if r.returncode != 0:
        return None
    return os.path.join(d, 'src')

def run(d, script, args=()):
    """-> None | (rc, stdout, stderr, races, regions)"""
    src = build(d)
    if src is None:
        return None
    so = _run(['gcc', '-print-file-name=libtsan.so'], d).stdout.strip()
    fn = os.path.join(d, 'script.py')
    pre = 'import sys\nsys.path.insert(0, %r)\nimport numpy as np\nfrom pwtools import _flib\nprint("STARTED", flush=True)\n' % src
    open(fn, 'w').write(pre + script)
    env = dict(os.environ, LD_PRELOAD=so, PYTHONPATH=src, OPENBLAS_NUM_THREADS='1',
               TSAN_OPTIONS='exitcode=66 report_thread_leaks=0 history_size=5')
    try:
        r = _run([sys.executable, '-W', 'ignore', fn] + [str(a) for a in args], d, env)
    except subprocess.TimeoutExpired:
        return None
    if 'STARTED' not in r.stdout or 'FATAL: ThreadSanitizer' in r.stderr:
        return None
    reports = r.stderr.split('WARNING: ThreadSanitizer: data race')[1:]
    races = [x for x in reports if '.f90' in x]
    return r.returncode, r.stdout, r.stderr, races, r.stderr.count('OMPREGION')

def require(res, ctx, what):
    """common verdict"""
    if res is None:
        ctx.trivial()
        ctx.count('race_analysis_unavailable')
        return None
    rc, out, err, races, regions = res
    mc.check(not races, lambda: what + ': conflicting unordered accesses of two threads:\n' + races[0][:1500])
    mc.check(rc in (0, 66), lambda: what + ': script failed (%s): %s' % (rc, err[-800:]))
    mc.check('ALLOK' in out, lambda: what + ': ' + out[-500:])
    ctx.count('parallel_regions_analysed', regions)
    return regions
