"""P39: molecular viewers and shell calls."""
import os, io, itertools, subprocess, time, contextlib, tempfile
import numpy as np
from mc import *
import co
from pwtools import batch, crys, common, visualize, io as pio

chk = Check('P39', level='model_checking',
    rule='All sequences up to length 2 (thorough 3) of viewer calls over viewer x object x file names given or not x keep x background x display x options are run with stand-ins for the viewer programs which record how they were called and what they were given; after every call the files in the temp directory, the open file descriptors and the objects are compared with a model. All shell command outcomes (output, error output, exit code, size) of the two shell helpers. Non-trivial: the call succeeds.',
    assumptions=['the viewer reads its file before it ends'])

FAKE = '''#!/bin/bash
{ echo "prog=$(basename "$0")"; echo "n=$#"; for a in "$@"; do echo "arg=$a"; done; echo "data"; cat "${@: -1}"; } > "$VIEWREC.tmp"
echo "text output"; echo "error output" >&2
if [ -n "$VIEWGO" ]; then for ((i=0;i<1000;i++)); do [ -e "$VIEWGO" ] && break; sleep 0.02; done; fi
mv "$VIEWREC.tmp" "$VIEWREC"
exit ${VIEWRC:-0}
'''
VIEW = {'view_xcrysden': ('xcrysden', ['--axsf'], '.axsf', pio.write_axsf), 'view_vmd_axsf': ('vmd', [], '.axsf', pio.write_axsf),
        'view_vmd_xyz': ('vmd', [], '.xyz', pio.write_xyz), 'view_jmol': ('jmol', [], '.cif', pio.write_cif),
        'view_avogadro': ('avogadro', [], '.cif', pio.write_cif), 'avogadro2': ('avogadro2', [], '.cif', pio.write_cif)}

def obj(k):
    st = dict(symbols=['O', 'H', 'Al'], cell=np.array(co.CELLS['tri']), coords_frac=co.gen_frac(3, 1), forces=co.gen_arr((3, 3), 2))
    if k == 's':
        return crys.Structure(**st)
    if k == 'n':
        st.pop('symbols')
        return crys.Structure(**st)
    if k == 'm':
        st.pop('symbols')
    return crys.Trajectory(symbols=st.get('symbols'), cell=np.array([st['cell'], st['cell'] * 1.1]), coords_frac=np.array([co.gen_frac(3, i) for i in (1, 2)]),
                           forces=co.gen_arr((2, 3, 3), 2))

def attrs(o):
    return freeze([(k, getattr(o, k)) for k in o.attr_lst if k != 'symbols' and getattr(o, k, None) is not None])

def fds():
    return len(os.listdir('/proc/self/fd'))

CONF = [dict(sf=a, lf=b, keep=c, bg=d, disp=e, opt=f) for a, b, c, d, e, f in [
    (0, 0, 0, 0, 0, ''), (0, 0, 1, 0, 0, ''), (1, 0, 0, 0, 0, '-e x.tcl'), (1, 1, 1, 0, 0, ''), (0, 1, 0, 0, 1, ''), (1, 1, 0, 0, 1, '-a -b'),
    (0, 0, 0, 1, 0, ''), (1, 1, 0, 1, 0, '-q'), (0, 1, 1, 1, 1, '')]]

def gen(tier):
    one = [[v, o, c] for v in VIEW for o in ('snt' if v in ('view_jmol', 'view_avogadro', 'avogadro2') else 'sntm') for c in range(len(CONF))]
    for x in one:
        yield [x]
    two = [['view_vmd_xyz', 's', 0], ['view_jmol', 's', 6], ['view_xcrysden', 't', 3], ['view_avogadro', 'n', 1], ['view_vmd_axsf', 't', 2], ['view_jmol', 't', 0]]
    for n in ((2,) if tier == 'quick' else (2, 3)):
        for s in itertools.product(two, repeat=n):
            yield [list(x) for x in s]

def parse_rec(fn):
    head, data = open(fn).read().split('\ndata\n', 1)
    L = head.split('\n')
    return L[0][5:], [x[4:] for x in L[2:]], data

@chk.group(gen)
def viewers(case, ctx):
    bind, tmp, own = ctx.tmp(), ctx.tmp(), ctx.tmp()
    for p in set(v[0] for k, v in VIEW.items() if k != 'avogadro2' or any(x[0] == k for x in case)):
        fn = os.path.join(bind, p)
        open(fn, 'w').write(FAKE)
        os.chmod(fn, 0o755)
    oldenv = dict(os.environ)
    os.environ['PATH'] = bind + ':/usr/bin:/bin'
    model, owned = {}, {}     # files kept
    objs = {k: obj(k) for k in 'sntm'}
    try:
        for step, (v, o, ci) in enumerate(case):
            c = CONF[ci]
            prog, pargs, suffix, writer = VIEW[v]
            ob = objs[o]
            ref = obj({'n': 's', 'm': 't'}.get(o, o))
            if o in 'nm':
                ref.symbols = ['H'] * 3
            rfn = os.path.join(ctx.tmp(), 'ref' + suffix)
            before = attrs(ob)
            rec = os.path.join(ctx.tmp(), 'rec')
            os.environ['VIEWREC'] = rec
            go = os.path.join(ctx.tmp(), 'go')   # the viewer in the background ends after this file exists
            os.environ['VIEWGO'] = go if c['bg'] else ''
            kw = dict(tmpdir=tmp, keepfiles=bool(c['keep']), disp=bool(c['disp']), bg=bool(c['bg']), options=c['opt'])
            if c['sf']: kw['structfile'] = os.path.join(own, 's%i%s' % (step, suffix))
            if c['lf']: kw['logfile'] = os.path.join(own, 'l%i' % step)
            n0 = fds()
            nt, no = set(os.listdir(tmp)), set(os.listdir(own))
            with contextlib.redirect_stdout(io.StringIO()):
                call = lambda: getattr(visualize, 'view_avogadro' if v == 'avogadro2' else v)(ob, **kw)
                if o == 't' and suffix == '.cif':
                    check(raises(call) is not None, 'trajectory accepted by ' + v)
                    check(set(os.listdir(tmp)) == nt and set(os.listdir(own)) == no and fds() == n0, 'files left after refusal')
                    continue
                writer(rfn, ref)
                t0 = time.time()
                # text output of the viewer goes to our stdout if displayed
                with tempfile.TemporaryFile() as tf:
                    save = os.dup(1)
                    os.dup2(tf.fileno(), 1)
                    try:
                        call()
                    finally:
                        os.dup2(save, 1)
                        os.close(save)
                    if c['bg']:
                        check(not os.path.exists(rec), 'background call waited for the viewer')
                        open(go, 'w').close()
                        t0 = time.time()
                        while not os.path.exists(rec):
                            check(time.time() - t0 < 60, 'viewer in the background was not run')
                            time.sleep(0.01)
                        time.sleep(0.05)
                    else:
                        check(os.path.exists(rec), 'viewer has not run')
                    tf.seek(0)
                    shown = tf.read().decode()
            check(fds() == n0, lambda: 'open files before %i, after %i' % (n0, fds()))
            check(attrs(ob) == before, 'object changed')
            check(list(ob.symbols) == list(ref.symbols), 'symbols')
            p, args, data = parse_rec(rec)
            check(p == prog, 'program %r' % p)
            sf = args[-1]
            check(args[:-1] == pargs + c['opt'].split(), lambda: 'arguments %r' % args)
            check(sf.endswith(suffix) and (sf == kw['structfile'] if c['sf'] else os.path.dirname(sf) == tmp), lambda: 'struct file %r' % sf)
            check(data == open(rfn).read(), 'content of the struct file')
            both = 'text output\nerror output\n'
            check(shown == (both if c['disp'] else ''), lambda: 'displayed %r' % shown)
            keep = c['keep'] or c['bg']
            new = set(os.listdir(tmp)) - nt
            if keep:
                check(len(new) == 2 - c['sf'] - c['lf'], lambda: 'kept %s' % new)
                check(open(sf).read() == data, 'kept struct file')
                logs = [kw['logfile']] if c['lf'] else [os.path.join(tmp, x) for x in new if os.path.join(tmp, x) != sf]
                check(len(logs) == 1 and open(logs[0]).read() == both, 'log file')
                for f in [sf] + logs:
                    model[f] = open(f).read()
            else:
                check(not new, lambda: 'left in temp directory: %s' % new)
            have = {os.path.join(d, f): open(os.path.join(d, f)).read() for d in (tmp, own) for f in os.listdir(d)}
            check(have == model, lambda: 'files %s, expected %s' % (sorted(have), sorted(model)))
            ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)
            ctx.eval(1)
    finally:
        os.environ.clear()
        os.environ.update(oldenv)

OUT = ['', 'x', 'a b\n', 'é\n\n', 'big']
@chk.group(lambda tier: [[o, e, rc] for o in range(len(OUT)) for e in ('', ' \n', 'oops') for rc in (0, 1, 3)] + [['pipe', '', 0], ['keys', '', 0], ['nowait', '', 0]])
def shell(case, ctx):
    o, e, rc = case
    ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)
    d = ctx.tmp()
    n0 = fds()
    if o == 'pipe':
        check(common.backtick('seq 200000 | head -n1') == '1\n', 'broken pipe')
        check(fds() == n0, 'open files')
        return
    if o == 'keys':
        # set up in a temp dir, read out, removed
        os.makedirs(d + '/tmp'); os.makedirs(d + '/cwd')
        os.chdir(d + '/cwd')
        save = tempfile.tempdir, os.environ.get('TMPDIR')
        tempfile.tempdir, os.environ['TMPDIR'] = d + '/tmp', d + '/tmp'
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                k = batch.default_repl_keys()
        finally:
            tempfile.tempdir = save[0]
            os.environ.pop('TMPDIR') if save[1] is None else os.environ.update(TMPDIR=save[1])
        check({q: sorted(v) for q, v in k.items()} == {'ParameterStudy': ['calc_name', 'idx', 'revision', 'study_name'],
              'Machine': ['home', 'scratch', 'subcmd']}, lambda: 'default keys %s' % k)
        check(os.listdir(d + '/tmp') == [] and os.listdir(d + '/cwd') == [], 'files left behind')
        return
    if o == 'nowait':
        ctx.trivial()
        check(raises(lambda: common.system('true', wait=False)) is not None, 'wait=False')
        for c, ok in [('true | false', 0), ('false | true', 1), ('false; true', 1), ('true && false', 0), ('false || true', 1), ('(exit 3)', 0)]:
            check((raises(lambda: common.system(c)) is None) == bool(ok), 'system %s' % c)
        common.system('echo 5 > %s/f' % d)
        check(open(d + '/f').read() == '5\n', 'system has not run')
        return
    out = OUT[o] if OUT[o] != 'big' else 'line %s\n' * 20000
    open(d + '/out', 'w').write(out)
    open(d + '/err', 'w').write(e)
    cmd = 'cat %s/out; cat %s/err >&2; echo ran >> %s/ran; exit %i' % (d, d, d, rc)
    if e.strip():
        x = raises(lambda: common.backtick(cmd))
        check(x is not None and 'oops' in str(x) and cmd in str(x), lambda: 'error output: %r' % x)
    else:
        got = common.backtick(cmd)
        check(got == out, lambda: 'output %r' % short(got, 100))
    check(open(d + '/ran').read() == 'ran\n', 'ran once')
    with tempfile.TemporaryFile() as tf:
        save, save2 = os.dup(1), os.dup(2)
        os.dup2(tf.fileno(), 1); os.dup2(tf.fileno(), 2)
        try:
            x = raises(lambda: common.system(cmd))
        finally:
            os.dup2(save, 1); os.dup2(save2, 2)
            os.close(save); os.close(save2)
        tf.seek(0)
        check(tf.read().decode() == out + e, 'output of system')
    check((x is None) == (rc == 0), lambda: 'system with exit code %i: %r' % (rc, x))
    check(open(d + '/ran').read() == 'ran\nran\n', 'ran once')
    check(fds() == n0, 'open files')

# --- radial distribution function by VMD ---------------------------------------------------
FAKEVMD = '''#!/bin/bash
script="${@: -1}"
echo "n=$# $1 $2 $3 $4" >> "$VIEWREC.calls"
cp "$script" "$VIEWREC.tcl"
cp "$(sed -n 's/^mol new \\(.*\\) type .*/\\1/p' "$script")" "$VIEWREC.xsf"
out="$(sed -n 's/^set fp \\[open "\\(.*\\)" w\\]/\\1/p' "$script")"
cp "$VIEWREC.table" "$out"
echo "vmd says"; echo "vmd complains" >&2
'''
def xsf_frames(fn):
    L = [l.split() for l in open(fn)]
    fr, cells = [], []
    for i, t in enumerate(L):
        if t and t[0] == 'PRIMVEC':
            cells.append([[float(x) for x in r] for r in L[i + 1:i + 4]])
        if t and t[0] == 'PRIMCOORD':
            n = int(L[i + 1][0])
            fr.append([(r[0], [float(x) for x in r[1:4]]) for r in L[i + 2:i + 2 + n]])
    return fr, cells

def gen_gofr(tier):
    n = 5
    for first in (0, 1, 3, 4):
        for last in (-1, 1, 3, 4):
            if last != -1 and last < first:
                continue
            for step in (1, 2, 3):
                for sf in (True, False):
                    yield ['t', first, last, step, sf, 0]
    for k in range(1, 5):
        for sf in (True, False):
            yield ['t', 1, 3, 2, sf, k]
            yield ['s', 0, -1, 1, sf, k]
    for last in (-2, -3, -5):
        yield ['t', 0, last, 1, True, 0]
    for cn in co.CELLS:
        yield ['cell', cn, 0, 0, True, 0]

ARGS = [dict(), dict(dr=0.1, rmax=2.5), dict(sel=['name O', 'all']), dict(usepbc=0, verbose=True), dict(sel=['name H', 'name Al'], rmax=4.0, usepbc=1, dr=0.02)]
@chk.group(gen_gofr)
def gofr(case, ctx):
    kind, first, last, step, sf, k = case
    ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)
    bind, tmp, rd = ctx.tmp(), ctx.tmp(), ctx.tmp()
    open(bind + '/vmd', 'w').write(FAKEVMD)
    os.chmod(bind + '/vmd', 0o755)
    rec = os.path.join(rd, 'r')
    table = np.round(co.gen_arr((7, 3), 5 + k, 0, 9), 6)
    np.savetxt(rec + '.table', table)
    cell = np.diag([7.0, 8.0, 9.5])
    sy = ['O', 'H', 'Al', 'H']
    if kind == 'cell':
        cell = np.array(co.CELLS[first])
        tr = crys.Trajectory(symbols=sy, cell=cell, coords_frac=np.array([co.gen_frac(4, i) for i in range(3)]))
        first, last, step = 0, -1, 1
    elif kind == 't':
        tr = crys.Trajectory(symbols=sy, cell=cell, coords_frac=np.array([co.gen_frac(4, i) for i in range(5)]))
    else:
        tr = crys.Structure(symbols=sy, cell=cell, coords_frac=co.gen_frac(4, 1))
    before = attrs(tr)
    kw = dict(ARGS[k], first=first, last=last, step=step, slicefirst=sf, tmpdir=tmp)
    oldenv = dict(os.environ)
    os.environ['PATH'] = bind + ':/usr/bin:/bin'
    os.environ['VIEWREC'] = rec
    n0 = fds()
    so = io.StringIO()
    got = []
    try:
        with contextlib.redirect_stdout(so):
            err = raises(lambda: got.append(crys.vmd_measure_gofr(tr, **kw)))
    finally:
        os.environ.clear()
        os.environ.update(oldenv)
    check(fds() == n0, lambda: 'open files before %i, after %i' % (n0, fds()))
    check(attrs(tr) == before, 'object changed')
    cc = co.cell2cc(cell)
    if abs(cc[3:] - 90).max() > 0.1:
        check(err is not None and not os.path.exists(rec + '.calls'), 'cell which is not orthogonal accepted')
        return
    check(err is None, lambda: 'failed: %r' % err)
    assert_close(got[0], table, 'table', 1e-12, 0)
    check(open(rec + '.calls').read().split()[0] == 'n=5' and len(open(rec + '.calls').readlines()) == 1, 'calls of vmd')
    check(open(rec + '.calls').read().split()[1:] == ['-dispdev', 'none', '-eofexit', '-e'], 'arguments of vmd')
    check(('vmd says' in so.getvalue() and 'vmd complains' in so.getvalue()) == bool(ARGS[k].get('verbose')), lambda: 'shown %r' % so.getvalue())
    import re
    tcl = open(rec + '.tcl').read()
    check('XXX' not in tcl, 'placeholders left')
    used_files = [os.path.dirname(f) for f in re.findall(r'mol new (\S+) type', tcl)]
    check(used_files and all(os.path.realpath(f) == os.path.realpath(tmp) for f in used_files), lambda: 'temporary files %r, not in %s' % (used_files, tmp))
    var = dict(re.findall(r'^set (\w+) "?([^"\[\n]*)"?$', tcl, re.M))
    sel = ARGS[k].get('sel', ['all', 'all'])
    check([var['selstr1'], var['selstr2']] == sel, lambda: 'selections %r' % var)
    check(float(var['delta']) == ARGS[k].get('dr', 0.05) and int(var['usepbc']) == ARGS[k].get('usepbc', 1), lambda: 'variables %r' % var)
    # largest sphere in an orthogonal box: half of the shortest edge
    assert_close(float(var['rmax']), ARGS[k].get('rmax', cc[:3].min() / 2), 'rmax', 1e-12, 0)
    fr, cells = xsf_frames(rec + '.xsf')
    vl = int(var['last'])
    check(vl >= -1, 'last handed to vmd')
    used = fr[int(var['first']):None if vl == -1 else vl + 1][::int(var['step'])]
    all_ = np.atleast_3d(tr.coords) if kind == 's' else tr.coords
    if kind == 's':
        all_ = tr.coords[None]
    want = all_[first:None if last == -1 else last + 1][::step]
    check(len(used) == len(want), lambda: '%i steps used, %i selected' % (len(used), len(want)))
    for u, w in zip(used, want):
        check([a for a, _ in u] == sy, 'symbols')
        assert_close([c for _, c in u], w, 'coordinates', 1e-7, 1e-7)
    for c in cells:
        assert_close(c, cell, 'cell', 1e-7, 1e-7)
