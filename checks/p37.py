"""P37: bin/cut-cpmd.sh and bin/cut-cp2k.sh."""
import os, subprocess, itertools, shutil, tempfile
import numpy as np
from mc import *
import co

chk = Check('P37', level='model_checking',
    rule='Model: the output of a run is a list of steps, each a block of text per file. All first step numbers (around changes in the number of digits) x numbers of steps x steps to cut at (every one in the files, and one behind the end) x atom numbers x subsets of files x options are run with the real scripts on a scratch directory; the whole directory is compared with the model; then the run is continued (the following steps are appended) and cut again at every later step. Non-trivial: at least one step is removed.',
    assumptions=['the step to cut at is in every file, or behind its end', 'GNU sed, awk, bc and getopt are installed'])

BIN = os.path.join(REPO, 'bin')

def num(name, step, rep, n, lo=-9.0, hi=9.0):
    seed = sum(map(ord, name)) * 7 + step * 131 + rep * 1009
    return co.gen_arr((n,), seed % 100003, lo, hi)

SY = ['Al', 'N', 'H', 'O']
def cpmd_block(fn, step, nat, rep):
    v = lambda n: num(fn, step, rep, n)
    if fn == 'CELL':
        return '   CELL PARAMETERS at Step: %11i\n' % step + ''.join('%15.6f' * 3 % tuple(v(9)[3*i:3*i+3]) + '      -0.000269    -0.000012    -0.000004\n' for i in range(3))
    if fn == 'STRESS':
        return '   TOTAL STRESS TENSOR (kB): Step: %11i\n' % step + ''.join('%20.8f' * 3 % tuple(v(9)[3*i:3*i+3]) + '\n' for i in range(3))
    if fn == 'ENERGIES':
        return '%10i  %.8f  %.8f   %.3f    %.10f    %.10f    %.10f   0.328003E-06     0.17\n' % ((step,) + tuple(v(6)))
    if fn in ('TRAJECTORY', 'FTRAJECTORY'):
        nc = 6 if fn == 'TRAJECTORY' else 9
        return ''.join('%7i ' % step + ' '.join('%23.14f' % x for x in v(nc * nat)[i*nc:(i+1)*nc]) + '\n' for i in range(nat))
    return '%12i\n STEP: %11i\n' % (nat, step) + ''.join('%2s' % SY[i % 4] + '%14.6f' * 3 % tuple(v(3 * nat)[3*i:3*i+3]) + '\n' for i in range(nat))
CPMD = ['CELL', 'ENERGIES', 'STRESS', 'TRAJECTORY', 'FTRAJECTORY', 'TRAJEC.xyz']

CP2K = ['PROJECT-1.cell', 'PROJECT-1.ener', 'PROJECT-1.stress', 'PROJECT-frc-1.xyz', 'PROJECT-pos-1.xyz', 'PROJECT-vel-1.xyz']
def cp2k_block(fn, step, nat, rep):
    v = lambda n: num(fn, step, rep, n)
    if fn.endswith('.xyz'):
        return '%8i\n i = %8i, time = %12.3f, E = %20.10f\n' % (nat, step, step * 0.5, v(1)[0]) + \
            ''.join('%3s' % SY[i % 4] + '%20.10f' * 3 % tuple(v(3 * nat)[3*i:3*i+3]) + '\n' for i in range(nat))
    n = 6 if fn.endswith('ener') else 10
    return '%10i %19.6f' % (step, step * 0.5) + ' '.join('%20.9f' % x for x in v(n)) + '\n'
HEAD = {'PROJECT-1.cell': '#   Step   Time [fs]       Ax [Angstrom]  1 2 3\n', 'PROJECT-1.ener': '#     Step Nr.          Time[fs]        Kin.[a.u.]          Temp[K]\n',
        'PROJECT-1.stress': '#   Step   Time [fs]            xx [bar]\n'}

def text(blk, fn, steps, nat, rep=0):
    return HEAD.get(fn, '') + ''.join(blk(fn, s, nat, rep) for s in steps)

def tree(d):
    return {n: open(os.path.join(d, n)).read() for n in os.listdir(d)}

def call(script, *args):
    cwd = tempfile.mkdtemp(dir=os.getcwd())
    r = subprocess.run(['bash', os.path.join(BIN, script)] + list(args), capture_output=True, text=True, timeout=100, cwd=cwd)
    check(os.listdir(cwd) == [], 'files in the current directory')
    return r

def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a: return '%s is missing' % k
        if k not in b: return '%s is new' % k
        if a[k] != b[k]:
            la, lb = a[k].split('\n'), b[k].split('\n')
            for i, (x, y) in enumerate(zip(la, lb)):
                if x != y: return '%s line %i: %r, expected %r' % (k, i, x, y)
            return '%s has %i lines, expected %i' % (k, len(la), len(lb))

FIRST = [0, 1, 8, 97]
def gen(tier):
    for prog in ('cpmd', 'cp2k'):
        for first in FIRST:
            if prog == 'cpmd' and first == 0:
                continue
            for n in ([1, 4] if tier == 'quick' else [1, 2, 3, 5, 12]):
                for cut in list(range(first, first + n)) + [first + n]:
                    for nat in (1, 3):
                        for sub in range(3):
                            yield [prog, first, n, cut, nat, sub]

@chk.group(gen)
def cut_and_continue(case, ctx):
    prog, first, n, cut, nat, sub = case
    files, blk, script = (CPMD, cpmd_block, 'cut-cpmd.sh') if prog == 'cpmd' else (CP2K, cp2k_block, 'cut-cp2k.sh')
    present = {0: files, 1: files[::2], 2: files[1::2]}[sub]
    if prog == 'cp2k' and 'PROJECT-pos-1.xyz' not in present:
        present = sorted(present + ['PROJECT-pos-1.xyz'])
    os.chdir(ctx.tmp())
    d = os.path.join(ctx.tmp(), 'calc.x')
    os.mkdir(d)
    steps = list(range(first, first + n))
    other = {'README': 'STEP: %i\n i = %i, \n %i \n' % (cut, cut, cut), 'PROJECT-1.restart.bak-1': 'x'}
    fs = dict(other)
    for fn in present:
        fs[fn] = text(blk, fn, steps, nat)
    for k, v in fs.items():
        open(os.path.join(d, k), 'w').write(v)
    if cut > steps[-1]:
        ctx.trivial()
    # the option -s changes nothing
    r = call(script, '-s', d, str(cut))
    check(r.returncode == 0, lambda: 'exit code %i: %s' % (r.returncode, r.stderr))
    bad = diff(tree(d), fs)
    check(not bad, lambda: '-s: %s' % bad)
    use_restart = prog == 'cp2k' and sub == 0
    if use_restart:
        fs['PROJECT-1.restart'] = ' &GLOBAL\n &END\n &MD\n     ENSEMBLE NVE\n     STEP_START_VAL  %i\n     TIME_START_VAL  3.5\n &END\n' % (cut - 1)
        open(os.path.join(d, 'PROJECT-1.restart'), 'w').write(fs['PROJECT-1.restart'])
        r = call(script, d + '/')
    else:
        r = call(script, d, str(cut))
    check(r.returncode == 0, lambda: 'exit code %i: %s' % (r.returncode, r.stderr))
    keep = [s for s in steps if s < cut]
    def after(fs, keep, rep):
        out = dict(fs)
        for fn in present:
            out[fn + '.bak'] = fs[fn]
            out[fn] = text(blk, fn, keep, nat) if rep is None else rep(fn)
        return out
    def model_tree(d):
        # an intermediate copy of TRAJEC.xyz made by the script is not modelled
        t = tree(d)
        t.pop('TRAJEC.xyz.bak2', None)
        return t
    want = after(fs, keep, None)
    got = model_tree(d)
    bad = diff(got, want)
    check(not bad, lambda: 'cut at %i of %s: %s' % (cut, steps, bad))
    ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)
    ctx.eval(1)
    # continue the run (with other numbers than the first time) and cut again
    more = list(range(cut, cut + 3))
    for k in present:
        with open(os.path.join(d, k), 'a') as f:
            f.write(''.join(blk(k, s, nat, 1) for s in more))
    full = {k: HEAD.get(k, '') + ''.join(blk(k, s, nat, 0) for s in keep) + ''.join(blk(k, s, nat, 1) for s in more) for k in present}
    t = tree(d)
    for k in present:
        check(t[k] == full[k], lambda: '%s does not continue properly' % k)
    for cut2 in more:
        d2 = os.path.join(ctx.tmp(), 'again%i' % cut2)
        shutil.copytree(d, d2)
        r = call(script, d2, str(cut2))
        check(r.returncode == 0, lambda: 'exit code %i: %s' % (r.returncode, r.stderr))
        w = model_tree(d)
        for k in present:
            w[k + '.bak'] = full[k]
            w[k] = HEAD.get(k, '') + ''.join(blk(k, s, nat, 0) for s in keep) + ''.join(blk(k, s, nat, 1) for s in more if s < cut2)
        bad = diff(model_tree(d2), w)
        check(not bad, lambda: 'second cut at %i: %s' % (cut2, bad))
        ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)
        ctx.eval(1)

@chk.group(lambda tier: [[p, k] for p in ('cpmd', 'cp2k') for k in ('noarg', 'nodir', 'norestart', 'three', 'help', 'stdout', 'badopt')])
def usage(case, ctx):
    prog, k = case
    files, blk, script = (CPMD, cpmd_block, 'cut-cpmd.sh') if prog == 'cpmd' else (CP2K, cp2k_block, 'cut-cp2k.sh')
    os.chdir(ctx.tmp())
    d = ctx.tmp()
    fs = {fn: text(blk, fn, [1, 2, 3], 2) for fn in files}
    for fn, t in fs.items():
        open(os.path.join(d, fn), 'w').write(t)
    ok = False
    if k == 'noarg': r = call(script)
    if k == 'nodir': r = call(script, d + '/none', '2')
    if k == 'norestart': r = call(script, d)
    if k == 'three': r = call(script, d, '2', '3')
    if k == 'badopt': r, ok = call(script, '-h', d, '2'), True
    if k == 'help': r, ok = call(script, '-h'), True
    if k == 'stdout':
        if prog == 'cp2k':
            ctx.trivial(); return
        r, ok = call(script, '--not-inplace', d, '2'), True
        for fn in files[:5]:
            for line in text(blk, fn, [1], 2).split('\n'):
                check(line in r.stdout, 'kept lines are printed')
    check((r.returncode == 0) == ok, lambda: 'exit code %i %s %s' % (r.returncode, r.stdout, r.stderr))
    bad = diff(tree(d), fs)
    check(not bad, lambda: 'files changed: %s' % bad)
    ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)
