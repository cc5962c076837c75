"""Development tool: turn bug descriptions into /verif/seeded/<id>/ and try them.

python3 tools/plant.py make BUGS.py     write seeded/<id>/ for every bug, verify in a scratch copy
python3 tools/plant.py check [ID ...]   run the bug's check against a scratch copy with the patch
BUGS.py: list BUGS of dicts id, property, edits [(file, old, new)], needs, breaks, demo (python text)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export MPLCONFIGDIR=$work WORK=$work
cd "$work"
timeout 250 python -W ignore "$here/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def scratch():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    assert sh('cp -a /repo %s/repo' % d).returncode == 0
    for n in ('env.sh', 'test.sh', 'build.sh', 'results.py'):
        s = open('/opt/vp/' + n).read()
        if n != 'results.py':
            s = s.replace('/repo', d + '/repo').replace('/opt/vp/env.sh', d + '/env.sh').replace('/opt/vp/results.py', d + '/results.py')
        open(os.path.join(d, n), 'w').write(s)
    return d

def stable(d):
    best = None
    for i in range(3):
        sh('bash %s/test.sh %s/o.json' % (d, d))
        o = json.load(open(d + '/o.json'))
        lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed'])
        lost -= {'test.test_trajectory::test_traj'}     # depends on the CPU (bitwise comparison of random data)
        best = lost if best is None else best & lost
        if not best:
            break
    return sorted(best)

def run_demo(d, sd):
    # the demo names /repo only through its working directory
    return sh('bash %s/demo.sh' % sd, cwd=d + '/repo')

def make(b):
    d = scratch()
    try:
        sd = os.path.join(V, 'seeded', b['id'])
        os.makedirs(sd, exist_ok=True)
        for f, old, new in b['edits']:
            p = os.path.join(d, 'repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %i matches of %r' % (b['id'], s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=d + '/repo').stdout
        open(sd + '/patch.diff', 'w').write(diff)
        open(sd + '/demo.sh', 'w').write(DEMO)
        open(sd + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
        # blame: only lines of the base commit may be touched
        if any(f.endswith(('.f90', 'Makefile')) for f, _, _ in b['edits']):
            r = sh('bash %s/build.sh' % d)
            if r.returncode:
                return b['id'] + ': does not build'
        r1 = run_demo(d, sd)
        lost = stable(d)
        assert sh('git checkout -- .', cwd=d + '/repo').returncode == 0
        if any(f.endswith(('.f90', 'Makefile')) for f, _, _ in b['edits']):
            sh('bash %s/build.sh' % d)
        r0 = run_demo(d, sd)
        msg = b['id'] + ': '
        ok = r0.returncode == 0 and r1.returncode != 0 and not lost
        msg += 'OK' if ok else 'BAD clean=%s bug=%s lost=%s\n%s\n%s' % (r0.returncode, r1.returncode, lost, r0.stderr[-600:], r1.stderr[-600:])
        return msg
    finally:
        shutil.rmtree(d)

def checkbug(i):
    sd = os.path.join(V, 'seeded', i)
    pid = json.load(open(sd + '/meta.json'))['property']
    if not os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        return '%s: no check %s' % (i, pid)
    d = scratch()
    try:
        r = sh('git apply %s/patch.diff' % sd, cwd=d + '/repo')
        if r.returncode:
            return '%s: does not apply %s' % (i, r.stderr)
        r = sh('bash %s/run.sh %s quick' % (V, pid), env=dict(os.environ, VERIF_DEV_REPO=d + '/repo', VERIF_EVIDENCE=d))
        return '%s %s: rc=%s %s' % (i, pid, r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s ' % pid in r.stdout else 'MISSED ' + (r.stdout + r.stderr)[-500:])
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        bugs = [b for b in ns['BUGS'] if len(sys.argv) < 4 or b['id'] in sys.argv[3:]]
        with ThreadPoolExecutor(3) as ex:
            for m in ex.map(make, bugs):
                print(m, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        with ThreadPoolExecutor(2) as ex:
            for m in ex.map(checkbug, ids):
                print(m, flush=True)
