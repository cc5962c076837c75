"""Shared machinery: bounded exhaustive exploration of the real pwtools code.

A check declares groups.  A group is a finite, deterministic enumeration of
cases (operation sequences, inputs, crash points, RNG choice sequences ...) and
a function which runs one case on the real code and compares with an oracle.
Every case of every group is run; nothing is sampled.  Cases are distributed
over forked workers; a supervisor turns a worker that dies or hangs into a
violation with the case it was working on."""

import atexit, hashlib, itertools, json, mmap, os, pickle, select, shutil
import signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')   # override: development only
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
NPROC = min(8, os.cpu_count() or 1)
HANG_S = 240
_main_pid = os.getpid()
_cleanup = []


def _scratch_root():
    # the many small files of a run: memory file system if there is one
    try:
        s = os.statvfs('/dev/shm')
        if s.f_bavail * s.f_frsize > 2 << 30:
            d = tempfile.mkdtemp(prefix='verif-', dir='/dev/shm')
            os.rmdir(d)
            return '/dev/shm'
    except OSError:
        pass
    return None
SCRATCH = _scratch_root()


def _do_cleanup():
    if os.getpid() != _main_pid:
        return
    for d in _cleanup:
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_do_cleanup)


def mkscratch(prefix='verif-'):
    d = tempfile.mkdtemp(prefix=prefix, dir=SCRATCH)
    _cleanup.append(d)
    return d


def _sig(*a):
    sys.exit(2)
signal.signal(signal.SIGTERM, _sig)


# --------------------------------------------------------------------------
# the code under test
# --------------------------------------------------------------------------
SRC = None

def _ext_current(src):
    d = os.path.join(src, '_ext_src')
    p = os.path.join(src, 'pwtools')
    try:
        names = ['Makefile'] + sorted(n for n in os.listdir(d) if n.endswith('.f90'))
        h = subprocess.run(['sha256sum'] + names, cwd=d, capture_output=True,
                           text=True, check=True).stdout.strip()
        if open(os.path.join(d, '.vp-stamp')).read().strip() != h:
            return False
        for so in ['_flib.so', '_dcd.so']:
            a = open(os.path.join(d, so), 'rb').read()
            b = open(os.path.join(p, so), 'rb').read()
            if not a or a != b:
                return False
        return True
    except (OSError, subprocess.CalledProcessError):
        return False


def prepare_repo():
    """Make ``import pwtools`` use /repo's current tree.  If the compiled
    Fortran extensions do not belong to the current sources, build them in a
    scratch copy (never in /repo)."""
    global SRC
    src = os.path.join(REPO, 'src')
    if not _ext_current(src):
        d = mkscratch('verif-src-')
        dst = os.path.join(d, 'src')
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns(
            '__pycache__', '*.so', '.vp-stamp', '*.egg-info'))
        r = subprocess.run(['make', '-C', os.path.join(dst, '_ext_src'),
                            'gfortran-omp', 'ARCH=-march=x86-64-v2'],
                           stdin=subprocess.DEVNULL, capture_output=True, text=True)
        ok = all(os.path.exists(os.path.join(dst, 'pwtools', so))
                 for so in ['_flib.so', '_dcd.so'])
        if r.returncode != 0 or not ok:
            print(r.stdout[-3000:], r.stderr[-3000:])
            print('ERROR: cannot build the Fortran extensions of /repo')
            sys.exit(2)
        src = dst
        print('note: extensions rebuilt from the current sources in a scratch copy')
    SRC = src
    sys.path.insert(0, src)
    os.environ['PYTHONPATH'] = src
    cfg = mkscratch('verif-cfg-')
    os.environ['MPLCONFIGDIR'] = cfg
    os.environ['XDG_CACHE_HOME'] = cfg


# --------------------------------------------------------------------------
class Violation(Exception):
    def __init__(self, msg, fid=None):
        Exception.__init__(self, msg)
        self.fid = fid


def check(cond, msg='', fid=None):
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg), fid)


def known_findings(pid):
    """fids listed as known (open) findings: lines
    ``KNOWN-FINDING: property=<id> fid=<fid> <text>``."""
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                body = line[len('KNOWN-FINDING:'):].split(None, 2)
                if body[0] == 'property=' + pid and body[1].startswith('fid='):
                    out[body[1][4:]] = body[2] if len(body) > 2 else ''
    return out


class Ctx:
    def __init__(self, base):
        self.base = base
        self.n = 0
        self.counts = {}
        self.evals = 0
        self.nontrivial = True
        self.dirs = []
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def eval(self, n=1):
        """n further evaluations inside one case"""
        self.evals += n

    def trivial(self):
        self.nontrivial = False

    def tmp(self):
        self.n += 1
        d = os.path.join(self.base, 'c%i' % self.n)
        os.makedirs(d)
        self.dirs.append(d)
        return d

    def done(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=repr)
    return s if len(s) <= n else s[:n] + ' ...'


class Check:
    def __init__(self, pid, level='exploration', rule='', assumptions=(),
                 nproc=NPROC, exhaustive=True, model_counts=None):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.groups = {}
        self.nproc = nproc
        self.exhaustive = exhaustive
        self.max_viol = int(os.environ.get('VERIF_MAXVIOL', 3))

    def group(self, gen, name=None):
        def deco(fn):
            self.groups[name or fn.__name__] = (gen, fn)
            return fn
        return deco

    # ----------------------------------------------------------------------
    def _run_case(self, gname, fn, case, ctx):
        """returns None or violation dict"""
        try:
            fn(case, ctx)
            return None
        except Violation as e:
            msg, fid = str(e), e.fid
            tb = traceback.format_exc(limit=-4)
        except (KeyboardInterrupt, SystemExit) as e:
            msg, fid = 'code under test ended the process: %r' % (e,), None
            tb = traceback.format_exc(limit=-6)
        except BaseException as e:
            msg, fid = '%s: %s' % (type(e).__name__, e), None
            tb = traceback.format_exc(limit=-6)
        return dict(group=gname, case=case, msg=msg, fid=fid, tb=tb)

    def _worker(self, wid, jobs, prog, outfn, base):
        os.makedirs(base)
        os.chdir(base)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        stats = {}
        viols = []
        nv = {}
        known = known_findings(self.pid)
        import numpy as np
        for k, (gi, ci, gname, case) in enumerate(jobs):
            if nv.get(gname, 0) >= self.max_viol:
                stats.setdefault(gname, [0, 0, {}, None, 0])[4] += 1
                continue
            struct.pack_into('qd', prog, wid * 16, k, time.time())
            ctx = Ctx(base)
            np.random.seed(12345)
            t = time.time()
            v = self._run_case(gname, self.groups[gname][1], case, ctx)
            os.chdir(base)
            ctx.done()
            s = stats.setdefault(gname, [0, 0, {}, None, 0])
            s[0] += 1 + ctx.evals
            s[1] += 1 if ctx.nontrivial else 0
            for a, b in ctx.counts.items():
                s[2][a] = s[2].get(a, 0) + b
            if ctx.nontrivial and s[3] is None:
                s[3] = ctx.sample if ctx.sample is not None else case
            if v is not None:
                viols.append(v)
                if v['fid'] is None or v['fid'] not in known:
                    nv[gname] = nv.get(gname, 0) + 1
                with open(outfn + '.v', 'a') as f:
                    f.write(json.dumps(v, default=repr) + '\n')
        struct.pack_into('qd', prog, wid * 16, len(jobs), time.time())
        with open(outfn, 'wb') as f:
            pickle.dump((stats, len(viols)), f)
        os._exit(0)

    def main(self, argv):
        only = None
        replay = None
        it = iter(argv)
        for a in it:
            if a == '--replay':
                replay = next(it)
            elif a == '--group':
                only = next(it)
        if replay:
            return self._replay(replay)
        jobs = []
        for gi, (gname, (gen, fn)) in enumerate(self.groups.items()):
            if only and gname != only:
                continue
            seen = set()
            for ci, case in enumerate(gen(TIER)):
                jobs.append((gi, ci, gname, case))
                key = json.dumps(case, default=repr)
                assert key not in seen, ('duplicate case in harness', gname, key)
                seen.add(key)
            assert seen, ('group without cases', gname)
        n = max(1, min(self.nproc, len(jobs)))
        base = mkscratch('verif-%s-' % self.pid)
        prog = mmap.mmap(-1, 16 * n)
        # interleave so that expensive neighbours are spread
        shards = [jobs[w::n] for w in range(n)]
        sys.stdout.flush(); sys.stderr.flush()
        pids = {}
        for w in range(n):
            struct.pack_into('qd', prog, w * 16, -1, time.time())
            pid = os.fork()
            if pid == 0:
                try:
                    self._worker(w, shards[w], prog,
                                 os.path.join(base, 'out%i' % w),
                                 os.path.join(base, 'w%i' % w))
                finally:
                    os._exit(77)
            pids[pid] = w
        viols = []
        while pids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid:
                if pid not in pids:
                    continue
                w = pids.pop(pid)
                if st != 0:
                    k, _ = struct.unpack_from('qd', prog, w * 16)
                    g, c = shards[w][k][2:4] if 0 <= k < len(shards[w]) else ('?', None)
                    viols.append(dict(group=g, case=c, fid=None, tb='',
                                      msg='process running the code died (wait status %i)' % st))
                continue
            now = time.time()
            for pid, w in list(pids.items()):
                k, t = struct.unpack_from('qd', prog, w * 16)
                # the slot is not written atomically: read it again
                if now - t > HANG_S:
                    time.sleep(0.2)
                    k, t = struct.unpack_from('qd', prog, w * 16)
                if now - t > HANG_S:
                    time.sleep(0.2)
                    k, t = struct.unpack_from('qd', prog, w * 16)
                if now - t > HANG_S:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    pids.pop(pid)
                    g, c = shards[w][k][2:4] if 0 <= k < len(shards[w]) else ('?', None)
                    viols.append(dict(group=g, case=c, fid=None, tb='',
                                      msg='no progress for %i s' % HANG_S))
            time.sleep(0.02)
        stats = {}
        for w in range(n):
            fn = os.path.join(base, 'out%i' % w)
            if os.path.exists(fn + '.v'):
                viols += [json.loads(x) for x in open(fn + '.v')]
            if os.path.exists(fn):
                st, _ = pickle.load(open(fn, 'rb'))
                for g, s in st.items():
                    q = stats.setdefault(g, [0, 0, {}, None, 0])
                    q[0] += s[0]; q[1] += s[1]; q[4] += s[4]
                    for a, b in s[2].items():
                        q[2][a] = q[2].get(a, 0) + b
                    if q[3] is None:
                        q[3] = s[3]
        return self._finish(jobs, stats, viols)

    def _finish(self, jobs, stats, viols):
        known = known_findings(self.pid)
        new = [v for v in viols if v['fid'] is None or v['fid'] not in known]
        old = [v for v in viols if v not in new]
        order = {g: i for i, g in enumerate(self.groups)}
        new.sort(key=lambda v: (order.get(v['group'], 99), json.dumps(v['case'], default=repr)))
        ev = sum(s[0] for s in stats.values())
        nt = sum(s[1] for s in stats.values())
        counts = {}
        for s in stats.values():
            for a, b in s[2].items():
                counts[a] = counts.get(a, 0) + b
        cov = dict(evaluations=ev, distinct_nontrivial=nt, rule=self.rule,
                   samples=[{g: json.loads(json.dumps(s[3], default=repr))}
                            for g, s in sorted(stats.items()) if s[3] is not None],
                   groups={g: dict(evaluations=s[0], nontrivial=s[1],
                                   **s[2]) for g, s in sorted(stats.items())},
                   exhaustive=bool(self.exhaustive and not new))
        cov.update(counts)
        evd = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                   coverage=cov, assumptions=self.assumptions,
                   wall_s=round(time.time() - T0, 2), violations=len(new))
        evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.pid + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
        print('%s %s: %i evaluations, %i distinct non-trivial, %s, %.1f s' % (
            self.pid, TIER, ev, nt,
            ' '.join('%s=%i' % x for x in sorted(counts.items())), time.time() - T0))
        for g, s in sorted(stats.items()):
            print('   %-34s %9i evaluations' % (g, s[0]))
        for fid in sorted(set(v['fid'] for v in old)):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, fid, known[fid]))
        if not new:
            return 0
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:2 * self.max_viol]):
            path = os.path.join(rdir, '%s-%i.json' % (self.pid, i))
            v = dict(v, property=self.pid, tier=TIER,
                     replay_cmd='bash run.sh %s --replay %s' % (self.pid, path))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=repr)
            print('  %s: case %s' % (v['group'], short(v['case'])))
            print('     %s' % short(v['msg'], 1200))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1

    def _replay(self, fn):
        v = json.load(open(fn))
        if v['group'] not in self.groups:
            print('unknown group', v['group'])
            return 2
        gen, f = self.groups[v['group']]
        target = json.dumps(v['case'], default=repr)
        base = mkscratch('verif-replay-')
        for tier in ('quick', 'thorough'):
            for case in gen(tier):
                if json.dumps(case, default=repr) == target:
                    os.chdir(base)
                    import numpy as np
                    np.random.seed(12345)
                    r = self._run_case(v['group'], f, case, Ctx(base))
                    os.chdir('/')
                    if r:
                        print(r['tb'])
                        print('VIOLATION property=%s replay=%s' % (self.pid, fn))
                        return 1
                    print('case passes now')
                    return 0
        print('case not in the enumeration any more')
        return 2


# --------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------
def seqs(ops, depth, mindepth=0):
    """all operation sequences up to a depth"""
    for d in range(mindepth, depth + 1):
        for s in itertools.product(ops, repeat=d):
            yield list(s)


def subsets(items, minlen=0, maxlen=None):
    items = list(items)
    for k in range(minlen, (len(items) if maxlen is None else maxlen) + 1):
        for c in itertools.combinations(items, k):
            yield list(c)


def close(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def assert_close(a, b, msg='', rtol=1e-9, atol=1e-9):
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    check(a.shape == b.shape, lambda: '%s: shape %s != expected %s' % (msg, a.shape, b.shape))
    check(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True),
          lambda: '%s: max abs deviation %s; got %s expected %s' % (
              msg, np.nanmax(np.abs(np.asarray(a, dtype=complex) - b)) if a.size else 0,
              short(repr(a), 300), short(repr(b), 300)))


def assert_equal(a, b, msg=''):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        check(a_.shape == b_.shape and bool((a_ == b_).all()),
              lambda: '%s: got %s expected %s' % (msg, short(repr(a), 400), short(repr(b), 400)))
    else:
        check(a == b, lambda: '%s: got %s expected %s' % (msg, short(repr(a), 400), short(repr(b), 400)))


def raises(fn, exc=Exception):
    try:
        fn()
    except exc as e:
        return e
    return None


def freeze(x):
    """structural snapshot for mutation detection"""
    import numpy as np
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, str(x.dtype), x.tobytes() if x.dtype != object else
                tuple(freeze(e) for e in x.ravel()))
    if isinstance(x, dict):
        return ('d',) + tuple((repr(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(e) for e in x)
    if x is None or isinstance(x, (int, float, complex, str, bytes, bool, np.generic)):
        return (type(x).__name__, repr(x))
    if hasattr(x, '__dict__'):
        return (type(x).__name__,) + tuple((k, freeze(v)) for k, v in sorted(x.__dict__.items()))
    return (type(x).__name__, repr(x))


class Choices:
    """Depth-first enumeration of all nondeterministic choices of a run.
    run(choose) is re-executed for every choice sequence."""
    @staticmethod
    def explore(run, limit=10**6):
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            trace = []
            def choose(k, trace=trace, prefix=prefix):
                i = len(trace)
                c = prefix[i] if i < len(prefix) else 0
                trace.append((c, k))
                return c
            run(choose)
            n += 1
            if n > limit:
                raise RuntimeError('choice tree too big')
            for i in range(len(prefix), len(trace)):
                for alt in range(1, trace[i][1]):
                    stack.append([c for c, _ in trace[:i]] + [alt])
        return n


def uniq(it):
    seen = set()
    for x in it:
        k = json.dumps(x, default=repr)
        if k not in seen:
            seen.add(k)
            yield x
