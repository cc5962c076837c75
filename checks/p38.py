"""P38: the conversion scripts in bin/."""
import os, io, sys, re, math, runpy, itertools, contextlib
import matplotlib
matplotlib.use('Agg')
import numpy as np
from mc import *
import co

chk = Check('P38', level='exploration',
    rule='All cells of a grid (cubic to triclinic) x symbol lists (orders, repetitions, one to four kinds) x coordinate sets are written as CIF or PDB file by the check and run through the real scripts; every section of every output is read with a reader written for the check and compared with the crystal computed by the check. All small phonon DOS and dispersion files. solvate.sh runs with a stand-in for gmx. Non-trivial: more than one atom.',
    assumptions=['conventional orientation of the cell (a along x, b in the xy plane), as for every CIF file', 'a mesh size exactly halfway between two integers may be rounded either way'])

BIN = os.path.join(REPO, 'bin')
MASS = dict(co.MASS, Cl=35.453, Ca=40.078)
Z = dict(co.Z, Cl=17, Ca=20)
BOHR = 0.529177210   # Angstrom

def script(name, *args, cwd):
    """run in this process; (stdout, stderr)"""
    so, se = io.StringIO(), io.StringIO()
    old, oldd = sys.argv, os.getcwd()
    sys.argv = [os.path.join(BIN, name)] + list(args)
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            runpy.run_path(os.path.join(BIN, name), run_name='__main__')
    finally:
        sys.argv = old
        os.chdir(oldd)
    return so.getvalue(), se.getvalue()

SYMS = [['Al'], ['N', 'Al'], ['O', 'H', 'H'], ['H', 'O', 'H'], ['Si', 'Al', 'O', 'N'], ['O', 'Si', 'O', 'Si', 'O'], ['Cl', 'C', 'Ca', 'C']]
def crystal(name, si, k):
    cc = np.round(co.cell2cc(np.array(co.CELLS[name]) * (1.0 + 0.5 * k)), 6)
    sy = SYMS[si]
    fr = np.round(co.gen_frac(len(sy), si + 3 * k), 7)
    if k == 1:
        fr.flat[::4] = [0.0, 0.5, 0.25, 1 / 3.][si % 4]
        fr = np.round(fr, 7)
    return cc, sy, fr

def uniq_(sy):
    out = []
    for s in sy:
        if s not in out:
            out.append(s)
    return sorted(out)

def nums(txt):
    return np.array([float(x) for x in txt.split()])

def block(lines, start, n):
    """the n lines after the line equal to start"""
    i = [j for j, l in enumerate(lines) if l.strip() == start]
    check(len(i) == 1, lambda: '%i lines %r' % (len(i), start))
    return lines[i[0] + 1:i[0] + 1 + n]

def val(lines, pat, cnt=1):
    out = [m.group(1) for l in lines for m in [re.match(pat, l)] if m]
    check(len(out) == cnt, lambda: '%i lines like %r' % (len(out), pat))
    return out[0] if cnt == 1 else out

def gen(tier):
    for name in co.CELLS:
        for si in range(len(SYMS)):
            for k in range(2 if tier == 'quick' else 5):
                yield [name, si, k]

@chk.group(gen)
def cif(case, ctx):
    name, si, k = case
    cc, sy, fr = crystal(name, si, k)
    nat, un = len(sy), uniq_(sy)
    if nat == 1:
        ctx.trivial()
    d = ctx.tmp()
    fn = os.path.join(d, 'x.cif')
    with open(fn, 'w') as f:
        f.write("data_x\n_symmetry_space_group_name_H-M 'P 1'\n_symmetry_Int_Tables_number 1\nloop_\n_symmetry_equiv_pos_as_xyz\nx,y,z\n")
        for t, v in zip(['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'], cc):
            f.write('_cell_%s %r\n' % (t, float(v)))
        f.write('loop_\n_atom_site_type_symbol\n_atom_site_label\n_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n')
        for i, s in enumerate(sy):
            f.write('%s %s%i %r %r %r\n' % ((s, s, i + 1) + tuple(map(float, fr[i]))))
    src = open(fn).read()
    so, se = script('cif2any.py', fn, cwd=d)
    check(os.listdir(d) == ['x.cif'] and open(fn).read() == src, 'files changed')
    cell = co.cc2cell(cc)
    bar = '-' * 78
    parts = so.split(bar + '\n')
    names = [p.strip() for p in parts]
    sec = {}
    for i, n in enumerate(names):
        if n in ('PWSCF', 'ABINIT', 'CPMD', 'CP2K', 'general crystal information'):
            check(n not in sec, 'two sections')
            sec[n] = parts[i + 1].split('\n')
    check(len(sec) == 5, lambda: 'sections %s' % list(sec))
    cl = lambda a, b, m, rt=1e-7: assert_close(np.asarray(a, float), np.asarray(b, float), m, rt, 1e-9)
    # --- PWscf
    L = sec['PWSCF']
    a, b, c = cc[:3]
    ca, cb, cg = [math.cos(math.radians(x)) for x in cc[3:]]
    for i, v in enumerate([a / BOHR, b / a, c / a, ca, cb, cg]):
        cl(float(val(L, r'\s*celldm\(%i\) = (.*)' % (i + 1))), v, 'celldm(%i)' % (i + 1))
    check([int(x) for x in val(L, r'\s*nat = (.*)', 2)] == [nat] * 2 and [int(x) for x in val(L, r'\s*ntyp = (.*)', 2)] == [len(un)] * 2, 'nat, ntyp')
    for card, fac in (('alat', 1 / a), ('angstrom', 1.0), ('bohr', 1 / BOHR)):
        cl([nums(x) for x in block(L, 'CELL_PARAMETERS ' + card, 3)], cell * fac, 'CELL_PARAMETERS ' + card)
    rows = [x.split() for x in block(L, 'ATOMIC_SPECIES', len(un) + 1)]
    check(rows[-1][0] == 'ATOMIC_POSITIONS', 'species')
    check(sorted(r[0] for r in rows[:-1]) == un, 'species')
    for r in rows[:-1]:
        cl(float(r[1]), MASS[r[0]], 'mass of ' + r[0], 2e-3)
        check(r[2] == r[0] + '.UPF', 'pseudopotential')
    order = [r[0] for r in rows[:-1]]
    rows = [x.split() for x in block(L, 'ATOMIC_POSITIONS crystal', nat)]
    check([r[0] for r in rows] == sy, 'symbols')
    cl([[float(x) for x in r[1:]] for r in rows], fr, 'positions')
    # --- ABINIT
    L = sec['ABINIT']
    check(int(val(L, 'natom (.*)')) == nat and int(val(L, 'ntypat (.*)')) == len(un), 'natom, ntypat')
    typ = [int(x) for x in val(L, 'typat (.*)').split()]
    zn = [int(float(x)) for x in val(L, 'znucl (.*)').split()]
    check(len(zn) == len(un) and [zn[t - 1] for t in typ] == [Z[s] for s in sy], lambda: 'typat %s znucl %s' % (typ, zn))
    po = [x.split() for x in block(L, 'pseudopotential order:', len(un))]
    check([p[0] for p in po] == [sy[typ.index(i + 1)] for i in range(len(un))] and [int(p[1]) for p in po] == zn, lambda: 'pseudopotential order %s' % po)
    cl(nums(val(L, 'acell (.*)')), cc[:3] / BOHR, 'acell')
    cl(nums(val(L, 'angdeg (.*)')), cc[3:], 'angdeg')
    cl([nums(x) for x in block(L, 'xred', nat)], fr, 'xred')
    # --- CPMD
    L = sec['CPMD']
    cl([float(x) for x in block(L, 'CELL ABSOLUTE DEGREE', 6)], np.concatenate((cc[:3] / BOHR, cc[3:])), 'CPMD cell')
    i0 = [j for j, l in enumerate(L) if l.strip() == '&ATOMS'][0]
    got = {}
    j = i0 + 1
    while L[j].strip() != '&END':
        m = re.match(r'\*(\w+)\.psp$', L[j])
        check(m is not None and m.group(1) not in got, lambda: 'CPMD atoms %r' % L[j])
        s = m.group(1)
        check(L[j + 1].strip().split() == ['LMAX=XXXLMAX_' + s.upper(), 'LOC=XXXLOC_' + s.upper()], 'CPMD LMAX')
        n = int(L[j + 2])
        got[s] = [nums(x) for x in L[j + 3:j + 3 + n]]
        j += 3 + n
    check(sorted(got) == un, 'CPMD kinds')
    for s in un:
        cl(got[s], fr[[t == s for t in sy]], 'CPMD coords of ' + s)
    # --- CP2K
    L = sec['CP2K']
    cl(nums(val(L, r'\s*abc (.*)')), cc[:3], 'abc')
    cl(nums(val(L, r'\s*alpha_beta_gamma (.*)')), cc[3:], 'alpha_beta_gamma')
    rows = [x.split() for x in block(L, 'scaled t', nat + 1)]
    check(rows[-1] == ['&end', 'coord'] and [r[0] for r in rows[:-1]] == sy, 'CP2K symbols')
    cl([[float(x) for x in r[1:]] for r in rows[:-1]], fr, 'CP2K coords')
    kinds = [m.group(1) for l in L for m in [re.match(r'\s*&kind (\w+)', l)] if m]
    check(sorted(kinds) == un, 'CP2K kinds')
    for s in un:
        val(L, r'\s*(basis_set XXXBASISSET_%s)$' % s); val(L, r'\s*(potential XXXPOTENTIAL_%s)$' % s)
    # --- general
    L = sec['general crystal information']
    rec = 2 * math.pi * np.linalg.inv(cell).T
    cl([nums(x) for x in block(L, 'reciprocal cell [1/Bohr]:', 3)], rec * BOHR, 'reciprocal cell / Bohr')
    cl([nums(x) for x in block(L, 'reciprocal cell [1/Ang]:', 3)], rec, 'reciprocal cell')
    nr = np.sqrt((rec ** 2).sum(1))
    cl(nums(block(L, 'relation of recip. vector lengths (a:b:c)', 1)[0]), nr / nr.min(), 'relation')
    hs = [l for l in L if l.startswith('h = ')]
    check([l[:9] for l in hs] == ['h = %.3f' % (0.2 + 0.1 * i) for i in range(8)], 'h values')
    for i, l in enumerate(hs):
        got = [int(x) for x in l.split('size =')[1].split()]
        for g, n in zip(got, nr):
            q = n / (0.2 + 0.1 * i)
            check(g == max(1, round(q)) or abs(q - math.floor(q) - 0.5) < 1e-6 and g in (math.floor(q), math.floor(q) + 1), lambda: 'kgrid %s: %r' % (l, q))
    # --- sgroup
    so, se = script('cif2sgroup.py', fn, cwd=d)
    L = [l.split('/')[0].strip() for l in so.split('\n')]
    L = [l for l in L if l]
    check(L[0] == 'P' and int(L[2]) == nat and len(L) == 3 + 2 * nat, lambda: 'sgroup input %r' % L)
    cl(nums(L[1]), cc, 'sgroup cell')
    check(L[4::2] == sy, 'sgroup symbols')
    cl([nums(x) for x in L[3::2]], fr, 'sgroup coords')
    check(os.listdir(d) == ['x.cif'] and open(fn).read() == src, 'files changed')

def read_cif(fn):
    sy, fr, cc, cols, inloop = [], [], {}, [], False
    for l in open(fn):
        t = l.split()
        if not t:
            continue
        if t[0].startswith('_cell_'):
            cc[t[0]] = float(t[1])
        elif t[0] == 'loop_':
            cols, inloop = [], True
        elif t[0].startswith('_'):
            if inloop and len(t) == 1: cols.append(t[0])
        elif '_atom_site_fract_x' in cols and len(t) == len(cols):
            r = dict(zip(cols, t))
            sy.append(r.get('_atom_site_type_symbol') or re.match('[A-Za-z]+', r['_atom_site_label']).group(0))
            fr.append([float(r['_atom_site_fract_' + x]) for x in 'xyz'])
    return np.array([cc['_cell_' + k] for k in ('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma')]), sy, np.array(fr)

@chk.group(lambda tier: [[n, s, o] for n in co.CELLS for s in range(len(SYMS)) for o in (0, 1)])
def pdb(case, ctx):
    name, si, given = case
    cc, sy, fr = crystal(name, si, 1)
    if len(sy) == 1:
        ctx.trivial()
    cc = np.round(np.concatenate((cc[:3] * 3, cc[3:])) , 2)
    cart = np.round(np.dot(fr, co.cc2cell(cc)), 3)
    d = ctx.tmp()
    fn = os.path.join(d, 'm.pdb')
    with open(fn, 'w') as f:
        f.write('CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n' % tuple(cc))
        for i, s in enumerate(sy):
            f.write('ATOM  %5i %4s UNK A%4i    %8.3f%8.3f%8.3f  1.00  0.00\n' % ((i + 1, s, 1) + tuple(cart[i])))
        f.write('TER\nEND\n')
    src = open(fn).read()
    out = os.path.join(d, 'o.cif') if given else fn + '.cif'
    script('pdb2cif.py', *([fn, out] if given else [fn]), cwd=d)
    check(sorted(os.listdir(d)) == sorted(['m.pdb', os.path.basename(out)]) and open(fn).read() == src, lambda: 'files %s' % os.listdir(d))
    c2, s2, f2 = read_cif(out)
    assert_close(c2, cc, 'cell', 1e-9, 1e-9)
    check(s2 == sy, lambda: 'symbols %s' % s2)
    assert_close(np.dot(f2, co.cc2cell(c2)), cart, 'positions', 1e-9, 1e-8)

GMX = r"""#!%(py)s
import sys
a = sys.argv[1:]
opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
open('args.txt', 'w').write('\n'.join(a))
base = [l for l in open(opt['-f']) if l[:6] in ('CRYST1', 'ATOM  ')]
add = [l for l in open(opt['-ci']) if l[:4] == 'ATOM']
n = int(opt.get('-nmol', 1))
with open(opt['-o'], 'w') as f:
    f.writelines(base)
    k = len(base) - 1
    for m in range(n):
        for l in add:
            k += 1
            name = l[12:16].strip().lstrip('0123456789')
            f.write('ATOM  %%5i %%4s SOL  %%4i    %%8.3f%%8.3f%%8.3f  1.00  0.00\n' %% (k, name, m + 2, float(l[30:38]) + m, float(l[38:46]) + 2 * m, float(l[46:54]) + 10 + 3 * m))
    f.write('TER\nEND\n')
open('#old#', 'w').write('backup')
print('some chatter')
if n == 3:
    print('Fatal problem number 7', file=sys.stderr)
print('Added %%i molecules (out of %%i requested)' %% (n, n))
"""

@chk.group(lambda tier: [[c, n, s, k] for c in ('tri', 'orth') for n in (1, 2, 3) for s in ((1, 4) if TIER == 'thorough' else (1,)) for k in (0, 1)])
def solvate(case, ctx):
    """solvate.sh with a stand-in for gmx which inserts shifted copies: the
    three output files hold the box of the input with its atoms followed by
    the inserted ones, options are handed on"""
    import subprocess
    cn, nmol, si, other = case
    name = [n for n in co.CELLS if len(set(np.round(co.cell2cc(np.array(co.CELLS[n]))[3:], 3))) == (3 if cn == 'tri' else 1)][0]
    cc, sy, fr = crystal(name, si, 1)
    cc = np.round(np.concatenate((cc[:3] * 3, cc[3:])), 2)
    cart = np.round(np.dot(fr, co.cc2cell(cc)), 3)
    d = ctx.tmp()
    w = os.path.join(d, 'w'); b = os.path.join(d, 'b')
    os.mkdir(w); os.mkdir(b)
    with open(os.path.join(b, 'gmx'), 'w') as f:
        f.write(GMX % dict(py=sys.executable))
    os.chmod(os.path.join(b, 'gmx'), 0o755)
    for sc in ('pdb2cif.py', 'cif2any.py'):
        with open(os.path.join(b, sc), 'w') as f:
            f.write('#!/bin/sh\nexec %s -W ignore %s "$@"\n' % (sys.executable, os.path.join(BIN, sc)))
        os.chmod(os.path.join(b, sc), 0o755)
    atom = 'ATOM  %5i %4s UNK A%4i    %8.3f%8.3f%8.3f  1.00  0.00\n'
    with open(os.path.join(w, 'foo.pdb'), 'w') as f:
        f.write('CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n' % tuple(cc))
        for i, s in enumerate(sy):
            f.write(atom % ((i + 1, s, 1) + tuple(cart[i])))
        f.write('TER\nEND\n')
    src = open(os.path.join(w, 'foo.pdb')).read()
    args = ['foo.pdb', '-nmol', str(nmol), '-seed', '123']
    if other:
        msy, mpos = ['C', 'O'], np.array([[0.1, 0.2, 0.3], [1.3, 0.2, 0.3]])
        with open(os.path.join(w, 'co.pdb'), 'w') as f:
            for i in range(2):
                f.write(atom % ((i + 1, msy[i], 1) + tuple(mpos[i])))
        args += ['-ci', 'co.pdb']
    else:
        msy, mpos = ['O', 'H', 'H'], np.array([[4.013, .831, -9.083], [4.941, .844, -8.837], [3.750, -.068, -9.293]])
    open(os.path.join(w, 'solvate.sh.log'), 'w').write('Error of an old run\nAdded 99 molecules (out of 99 requested)\n')
    env = dict(os.environ, PATH=b + ':' + os.environ['PATH'], PYTHONPATH=SRC)
    p = subprocess.run(['bash', os.path.join(BIN, 'solvate.sh')] + args, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    out = p.stdout.strip().split('\n')
    exp = (['Fatal problem number 7'] if nmol == 3 else []) + ['Added %i molecules (out of %i requested)' % (nmol, nmol)]
    check(out == exp, lambda: 'messages %r %r' % (out, p.stderr[-300:]))
    ga = open(os.path.join(w, 'args.txt')).read().split('\n')
    go = dict(zip(ga[1::2], ga[2::2]))
    go.pop('-ci')
    check(ga[0] == 'insert-molecules' and go == {'-nmol': str(nmol), '-seed': '123', '-f': 'foo.pdb', '-o': 'foo_gmx.pdb'}, lambda: 'gmx %r' % ga)
    check(not [x for x in os.listdir(w) if x.startswith('#')], lambda: 'backups left %s' % os.listdir(w))
    check(open(os.path.join(w, 'foo.pdb')).read() == src, 'input changed')
    c2, s2, f2 = read_cif(os.path.join(w, 'foo_gmx.cif'))
    assert_close(c2, cc, 'cell', 1e-9, 1e-9)
    check(s2 == sy + msy * nmol, lambda: 'symbols %s' % s2)
    full = np.concatenate([cart] + [np.round(mpos + np.array([m, 2. * m, 10 + 3. * m]), 3) for m in range(nmol)])
    assert_close(np.dot(f2, co.cc2cell(c2)), full, 'positions', 1e-9, 1e-8)
    so, se = script('cif2any.py', os.path.join(w, 'foo_gmx.cif'), cwd=d)
    check(open(os.path.join(w, 'foo_gmx.cif.txt')).read() == so, 'foo_gmx.cif.txt is not the output of cif2any.py')

@chk.group(lambda tier: [[n, k, nat, j] for n in (5, 6, 21, 40) for k in range(3) for nat in (1, 2, 5) for j in (0, 1)])
def phdos(case, ctx):
    n, k, nat, j = case
    f = np.round((0.0 if k < 2 else 13.5) + np.arange(n) * [1.0, 12.5, 0.25][k], 6)
    y = np.exp(-((np.arange(n) - n / 2.) / (n / 6. + 0.5)) ** 2)
    # any proper integration of these tables gives the number of atoms
    y *= 3 * nat / (y.sum() * (f[1] - f[0])) * (1 + [0.0, 0.02][j] / nat)
    d = ctx.tmp()
    fn = os.path.join(d, 'x.phdos')
    open(fn, 'w').write(''.join('%14.6f %14.8f\n' % t for t in zip(f, y)))
    src = open(fn).read()
    so, se = script('matdyn2fqha.py', fn, cwd=d)
    L = so.split('\n')
    check(int(L[0]) == nat, lambda: 'atoms %r' % L[0])
    t = L[1].split()
    check(len(t) == 4 and int(t[0]) == nat and int(t[1]) == n, lambda: 'header %r' % L[1])
    assert_close([float(t[2]), float(t[3])], [f[-1], f[1] - f[0]], 'emax, de', 1e-6, 1.1e-6)
    check('\n'.join(L[2:]).rstrip('\n') == src.rstrip('\n'), 'table')
    check(os.listdir(d) == ['x.phdos'] and open(fn).read() == src, 'files changed')

@chk.group(lambda tier: [[nq, nat, k] for nq in (1, 2, 3, 7) for nat in (1, 2, 3) for k in (0, 1)])
def dispersion(case, ctx):
    import matplotlib.pyplot as plt
    nq, nat, k = case
    qs = np.round(co.gen_arr((nq, 3), nq + k, -1, 1), 6)
    if k and nq > 2:
        qs[2] = qs[1]
    fs = np.round(co.gen_arr((nq, 3 * nat), nq + 10 * nat + k, -99, 900), 4)
    d = ctx.tmp()
    fn = os.path.join(d, 'matdyn.freq')
    with open(fn, 'w') as f:
        f.write(' &plot nbnd=%4i, nks=%4i /\n' % (3 * nat, nq))
        for q, w in zip(qs, fs):
            f.write(' ' * 10 + '%10.6f%10.6f%10.6f\n' % tuple(q))
            for i in range(0, 3 * nat, 6):
                f.write(''.join('%10.4f' % x for x in w[i:i + 6]) + '\n')
    plt.close('all')
    shown = []
    old = plt.show
    plt.show = lambda *a, **kw: shown.append([[l.get_xydata().copy() for l in ax.lines] for n in plt.get_fignums() for ax in plt.figure(n).axes])
    try:
        script('plot_dispersion.py', fn, cwd=d)
    finally:
        plt.show = old
        plt.close('all')
    check(len(shown) == 1 and len(shown[0]) == 1 and len(shown[0][0]) == 3 * nat, lambda: 'plotted %r' % (shown,))
    x = [0.0]
    for a, b in zip(qs[:-1], qs[1:]):
        x.append(x[-1] + math.sqrt(sum((b - a) ** 2)))
    for i, xy in enumerate(shown[0][0]):
        assert_close(np.diff(xy[:, 0]), np.diff(x), 'path length', 1e-9, 1e-12)
        assert_close(xy[:, 1], fs[:, i], 'band %i' % i, 1e-12, 1e-12)
