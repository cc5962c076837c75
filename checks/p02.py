"""P02: kill the process at every file system changing call of an appended
parameter study and run it again."""
import ctypes, os, shutil, sqlite3, subprocess, sys
import mc
from mc import *

# run under the shim (compiled here); the first process only starts this one
if 'VSHIM' not in os.environ:
    d = mkscratch('verif-shim-')
    so = os.path.join(d, 'crashshim.so')
    subprocess.run(['gcc', '-w', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'lib', 'crashshim.c'), '-ldl'], check=True)
    r = subprocess.run([sys.executable, '-W', 'ignore'] + sys.argv, env=dict(os.environ, VSHIM=so, LD_PRELOAD=so))
    sys.exit(r.returncode)
shim = ctypes.CDLL(os.environ['VSHIM'])
os.environ.pop('LD_PRELOAD')           # not in children (shells)

from pwtools import batch, sql

chk = Check('P02', level='fault_enumeration',
    rule='For each study history the appended study is run once to count its file system changing calls; then it is killed before every such call and in the middle of every write, each time on a fresh copy; after the kill the earlier records and directories are compared, then the study is run again without fault and compared with the undisturbed result. All crash points are enumerated; each is one evaluation.',
    assumptions=['the process is killed, the machine keeps running (what was written stays written)',
                 'a torn write leaves the first half of its bytes'])
E = sql.SQLEntry

def sets(k):
    if k == 0:
        return [[E(key='foo', sqlval=1), E(key='bar', sqlval='b')]]
    if k == 1:
        return [[E(key='foo', sqlval=2), E(key='bar', sqlval='c')], [E(key='foo', sqlval=3), E(key='newcol', sqlval=1.5)]]
    return [[E(key='other', sqlval='z' * 9000)], [E(key='foo', sqlval=9)], [E(key='third', sqlval=2)]]

TXT = 'XXXFOO XXXBAR XXXIDX XXXCALC_NAME XXXSCRATCH XXXOTHER\n' * 3

def study(root, k, nm, backup):
    templates = [batch.FileTemplate(basename='pw.in', txt=TXT), batch.FileTemplate(basename='second', txt='XXXREVISION XXXIDX\n')]
    ms = [batch.Machine(hostname='m%i' % i, subcmd='sh', scratch='/scr%i' % i, home='/h', template=batch.FileTemplate(basename='job.m%i' % i, txt='XXXSCRATCH XXXIDX\n'))
          for i in range(nm)]
    s = batch.ParameterStudy(machines=ms, templates=templates, params_lst=sets(k), calc_root=root, db_table='tab', db_name='c.db')
    s.write_input(mode='a', backup=backup)

def db(root):
    fn = os.path.join(root, 'c.db')
    c = sqlite3.connect(fn)
    c.row_factory = sqlite3.Row
    r = [dict(x) for x in c.execute('select * from tab order by idx')]
    c.close()
    return r

def tree(root):
    """the live tree: no database files, no backups"""
    out = {}
    for p, ds, fs in os.walk(root):
        if p == root:
            ds[:] = [d for d in ds if d in ('calc_m0', 'calc_m1', 'calc_m2')]
            fs = [f for f in fs if f == 'excl_push']
        for d in ds:
            out[os.path.relpath(os.path.join(p, d), root)] = None
        for f in fs:
            fn = os.path.join(p, f)
            out[os.path.relpath(fn, root)] = open(fn).read()
    return out

def in_child(fn):
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 98
        try:
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1); os.dup2(dn, 2)
            fn()
            rc = 0
        finally:
            os._exit(rc)
    st = os.waitpid(pid, 0)[1]
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1

def armed(n, torn, root, op, countfn=None):
    def f():
        shim.vshim_arm(n, torn)
        study(root, *op)
        c = shim.vshim_count()
        if countfn:
            with open(countfn, 'w') as g:
                g.write('%i %s' % (c, ''.join(str(shim.vshim_kind(i)) for i in range(1, c + 1))))
    return in_child(f)

def prepare(d, hist):
    root = os.path.join(d, 'base')
    for n, op in enumerate(hist[:-1]):
        assert in_child(lambda: study(root, *op)) == 0
        if n == 0:
            with open(os.path.join(root, 'calc_m0', '0', 'pw.out'), 'w') as f:
                f.write('result\n')
    return root

def reference(d, base, op):
    ref = os.path.join(d, 'ref')
    if os.path.exists(base):
        shutil.copytree(base, ref)
    cf = os.path.join(d, 'count')
    check(armed(-1, 0, ref, op, cf) == 0, 'undisturbed study fails')
    n, kinds = open(cf).read().split()
    return ref, int(n), kinds

HIST = [[[0, 1, True]], [[1, 2, False]],
        [[0, 1, True], [1, 1, True]],
        [[0, 2, True], [1, 2, False]],
        [[1, 1, False], [0, 2, True], [2, 1, True]],
        [[0, 1, False], [2, 2, False]]]

NSH = 6
def gen(tier):
    for h in range(len(HIST)):
        for shard in range(NSH):
            yield [h, shard]

def intact(old, oldrecs, root, what):
    t = tree(root)
    for p, v in old.items():
        if p.endswith('run.sh') or p == 'excl_push':
            continue
        check(p in t and t[p] == v, '%s: %s changed' % (what, p))
    if oldrecs:
        r = [x for x in db(root) if x['idx'] <= oldrecs[-1]['idx']]
        check([{k: x[k] for k in y} for x, y in zip(r, oldrecs)] == oldrecs and len(r) == len(oldrecs), '%s: records changed: %s' % (what, r))

def final(ref, refrecs, root, what):
    t = tree(root)
    check(t == ref, lambda: '%s: files differ after rerun: %s' % (what, short(sorted(k for k in set(ref) | set(t) if ref.get(k, 0) != t.get(k, 0)))))
    r = db(root)
    check(r == refrecs, lambda: '%s: records differ after rerun: %s expected %s' % (what, short(r), short(refrecs)))

@chk.group(gen)
def single_crash(case, ctx):
    h, shard = case
    hist = HIST[h]
    d = ctx.tmp()
    base = prepare(d, hist)
    op = hist[-1]
    old = tree(base) if len(hist) > 1 else {}
    oldrecs = db(base) if len(hist) > 1 else []
    ref, M, kinds = reference(d, base, op)
    reft, refr = tree(ref), db(ref)
    if shard == 0:
        ctx.count('crash_points_total', M + kinds.count('1'))
        ctx.sample = dict(history=hist, calls=M, writes=kinds.count('1'))
    pts = [(n, t) for n in range(1, M + 1) for t in ((0, 1) if kinds[n - 1] == '1' else (0,))]
    for n, t in pts[shard::NSH]:
        what = 'killed %s call %i of %i' % ('in the middle of' if t else 'before', n, M)
        work = os.path.join(d, 'work')
        if os.path.exists(base):
            shutil.copytree(base, work)
        rc = armed(n, t, work, op)
        check(rc == 99, '%s: exit %i' % (what, rc))
        ctx.eval()
        ctx.count('crashes')
        if len(hist) > 1:
            cp = os.path.join(d, 'cp')
            shutil.copytree(work, cp)
            intact(old, oldrecs, cp, what)
            shutil.rmtree(cp)
        rc = in_child(lambda: study(work, *op))
        check(rc == 0, '%s: running it again fails' % what)
        intact(old, oldrecs, work, what + ', rerun')
        final(reft, refr, work, what)
        shutil.rmtree(work)

NSH2 = 64
def gen2(tier):
    for h in (0, 2):
        for shard in range(0, NSH2, 1 if tier == 'thorough' else 8):
            yield [h, shard]

@chk.group(gen2)
def double_crash(case, ctx):
    """the rerun is killed as well"""
    h, shard = case
    hist = HIST[h]
    d = ctx.tmp()
    base = prepare(d, hist)
    op = hist[-1]
    old = tree(base) if len(hist) > 1 else {}
    oldrecs = db(base) if len(hist) > 1 else []
    ref, M, kinds = reference(d, base, op)
    reft, refr = tree(ref), db(ref)
    for n in range(1 + shard, M + 1, NSH2):
        one = os.path.join(d, 'one')
        if os.path.exists(base):
            shutil.copytree(base, one)
        check(armed(n, 1, one, op) == 99, 'not killed')
        n2 = 0
        while True:
            n2 += 1
            work = os.path.join(d, 'work')
            if os.path.exists(one):
                shutil.copytree(one, work)
            rc = armed(n2, 1, work, op)
            what = 'killed at call %i, rerun killed at call %i' % (n, n2)
            check(rc in (0, 99), '%s: exit %i' % (what, rc))
            ctx.eval(); ctx.count('crashes')
            if rc == 99:
                check(in_child(lambda: study(work, *op)) == 0, what + ': running it again fails')
            intact(old, oldrecs, work, what)
            final(reft, refr, work, what)
            shutil.rmtree(work)
            if rc == 0:
                break
        shutil.rmtree(one, ignore_errors=True)
