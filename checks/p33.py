"""P33: ASE calculators: input files, settings, results, backups (fake programs)."""
import itertools, math, os, re, shutil
import numpy as np
from mc import *
import co, outgen
from ase import Atoms
from pwtools import calculators as C
from pwtools import constants

chk = Check('P33', level='exploration',
    rule='all subsets of 10 (thorough: with two values each) pw.x settings and all subsets of LAMMPS settings; all ordered pairs of calculators from a set of settings, created and used in every interleaving (4 events); cells in 3 orientations x symbol sets (incl. symbols which are prefixes of others) x k-point forms; fake programs which return a known output; all histories of up to 3 calculations over moves, cell changes and composition changes with and without backup. Non-trivial: at least one setting which is not the default.',
    assumptions=['pw.x and lmp are replaced by shell scripts which only read the input file named on the command line and write a prepared output into the working directory',
                 'ASE as installed; a k-point density x means ceil(2 pi |b_i| x) as in ASE'])

MASS = dict(co.MASS, Na=22.99, Ca=40.078, Cl=35.45, S=32.06)
ROT = [np.identity(3), None, None]
def rot(a, b):
    ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
    return np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]])
ROT[1], ROT[2] = rot(.7, .4), rot(-2.1, 1.3)
CELLS = {'cubic': 4.0 * np.identity(3), 'tri': co.cc2cell([4.2, 5.1, 6.3, 82, 97, 75]), 'hex': co.cc2cell([3.1, 3.1, 5.0, 90, 90, 120])}

def atoms(cell='tri', r=0, sym=('Al', 'N', 'N'), seed=3):
    return Atoms(symbols=list(sym), cell=np.array(CELLS[cell]) @ ROT[r].T, scaled_positions=co.gen_frac(len(sym), seed, 0.02, 0.95), pbc=True)

# --- reading the inputs back ----------------------------------------------------
def num_(s):
    try:
        return float(s)
    except ValueError:
        return s.strip("'\"")

def parse_pw(txt):
    nl, cards, cur = {}, {}, None
    for l in txt.split('\n'):
        m = re.match(r'\s*(\w+)\s*=\s*(.*?)\s*,?\s*$', l)
        if m and cur is None:
            check(m.group(1) not in nl, 'setting %s twice' % m.group(1))
            nl[m.group(1)] = num_(m.group(2))
        elif re.match(r'\s*(ATOMIC_|CELL_|K_POINTS)', l):
            cur = l.split()
            check(cur[0] not in cards, 'card %s twice' % cur[0])
            cards[cur[0]] = (cur[1:], [])
        elif cur and l.split():
            cards[cur[0]][1].append(l.split())
    return nl, cards

def check_pw(txt, at, conf):
    nl, cards = parse_pw(txt)
    want = dict(prefix='pwscf', pseudo_dir=None, outdir=None, ecutwfc=80.0, ecutrho=None, electron_maxstep=500, diagonalization='david', mixing_mode='plain', mixing_beta=.3, conv_thr=1e-10)
    for k, v in conf.items():
        k = 'prefix' if k == 'calc_name' else k
        if k in want:
            want[k] = v
    if want['ecutrho'] is None:
        want['ecutrho'] = 4 * want['ecutwfc']
    want.update(nat=len(at), ntyp=len(set(at.get_chemical_symbols())), calculation='scf')
    for k, v in want.items():
        check(nl.get(k) == (float(v) if isinstance(v, (int, float)) else v), '%s = %r in the input, expected %r' % (k, nl.get(k), v))
    sy = at.get_chemical_symbols()
    opt, rows = cards['CELL_PARAMETERS']
    check(opt == ['angstrom'], 'unit of the cell')
    assert_close(np.array(rows, float), np.array(at.get_cell()), 'cell', 1e-12, 1e-12)
    opt, rows = cards['ATOMIC_POSITIONS']
    check(opt == ['crystal'] and [r[0] for r in rows] == sy, 'symbols of the positions')
    cart = np.array([r[1:4] for r in rows], float) @ np.array(at.get_cell())
    d = np.linalg.solve(np.array(at.get_cell()).T, (cart - at.get_positions()).T).T
    check(np.abs(d - np.round(d)).max() < 1e-10, 'positions')
    opt, rows = cards['ATOMIC_SPECIES']
    check(sorted(r[0] for r in rows) == sorted(set(sy)), 'species %r' % rows)
    for r in rows:
        check(abs(float(r[1]) / MASS[r[0]] - 1) < 5e-3, 'mass of %s: %s' % (r[0], r[1]))
        pp = conf['pp']
        check(len(r) == 3 and r[2] == ('%s.%s' % (r[0], pp) if isinstance(pp, str) else [p for p in pp if re.match(r[0] + '[^a-z]', p)][0]), 'pseudopotential %r' % r)
    opt, rows = cards['K_POINTS']
    k = conf.get('kpts', 5.0)
    if isinstance(k, (int, float)):
        rec = 2 * math.pi * np.linalg.inv(np.array(at.get_cell())).T
        q = [float(np.linalg.norm(b)) * k for b in rec]
        ref = [{int(math.ceil(x - 1e-6)), int(math.ceil(x + 1e-6))} for x in q]
    else:
        ref = [{int(x)} for x in k]
    check(opt == ['automatic'] and len(rows) == 1 and rows[0][3:] == ['0', '0', '0'] and all(int(x) in r for x, r in zip(rows[0], ref)), 'k-points %r, expected %r' % (rows, ref))

def parse_lmp_struct(fn):
    """symbols, fractional coords, cell constants"""
    L = open(fn).read().split('\n')
    g = lambda pat: [l for l in L if re.search(pat, l)][0].split()
    nat, nty = int(g(' atoms')[0]), int(g('atom types')[0])
    x, y, z = [float(g(k + 'lo')[1]) - float(g(k + 'lo')[0]) for k in 'xyz']
    xy, xz, yz = map(float, g('xy xz yz')[:3])
    cell = np.array([[x, 0, 0], [xy, y, 0], [xz, yz, z]])
    i = L.index('Atoms')
    at = [l.split() for l in L[i + 1:i + 2 + nat] if l.split()]
    i = L.index('Masses')
    ms = [l.split() for l in L[i + 1:i + 2 + nty] if l.split()]
    check(len(at) == nat and len(ms) == nty and [int(a[0]) for a in at] == list(range(1, nat + 1)), 'counts in the structure file')
    mass = {int(a): float(b) for a, b in ms}
    sy = [min(MASS, key=lambda s: abs(MASS[s] - mass[int(a[1])])) for a in at]
    fr = np.linalg.solve(cell.T, np.array([a[2:5] for a in at], float).T).T
    return sy, fr, cell

def check_lmp(d, label, at, conf):
    txt = open(os.path.join(d, label + '.in')).read()
    ls = [l.split('#')[0].split() for l in txt.replace('&\n', ' ').split('\n')]
    ls = [l for l in ls if l]
    get = lambda k: [l[1:] for l in ls if l[0] == k]
    check(get('units') == [['metal']] and get('atom_style') == [['atomic']], 'units')
    check(get('pair_style') == [conf.get('pair_style', 'tersoff').split()], 'pair_style %r' % get('pair_style'))
    check(get('pair_coeff') == [conf.get('pair_coeff', '* * ./AlN.tersoff Al N').split()], 'pair_coeff %r' % get('pair_coeff'))
    check(get('run') == [['0']] and ls[-1] == ['run', '0'] and ls.index(['run', '0']) == len(ls) - 1, 'run')
    rd = get('read_data')
    check(len(rd) == 1 and os.path.realpath(os.path.join(d, rd[0][0])) == os.path.realpath(os.path.join(d, label + '.struct')), 'the program, which runs in the directory, would read %r' % rd)
    dm = get('dump')[0]
    check(os.path.realpath(os.path.join(d, dm[4])) == os.path.realpath(os.path.join(d, label + '.out.dump')), 'the program would dump to %r' % dm[4])
    check({'id', 'type', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz'} <= set(dm[5:]), 'dumped columns')
    check({'pe', 'pxx', 'pyy', 'pzz', 'pxy', 'pxz', 'pyz'} <= set(get('thermo_style')[0]), 'printed quantities')
    sy, fr, cell = parse_lmp_struct(os.path.join(d, label + '.struct'))
    check(sy == at.get_chemical_symbols(), 'symbols of the structure file %r' % sy)
    check(open(os.path.join(d, label + '.struct.symbols')).read().split() == sy, 'symbols file')
    assert_close(co.cell2cc(cell), co.cell2cc(np.array(at.get_cell())), 'cell constants', 1e-9, 1e-9)
    df = fr - np.linalg.solve(np.array(at.get_cell()).T, at.get_positions().T).T
    check(np.abs(df - np.round(df)).max() < 1e-9, 'positions')
    return cell

# --- settings -----------------------------------------------------------------
SET = [('ecutwfc', 30, 41.5), ('ecutrho', 200, 333.25), ('conv_thr', 1e-5, 2.5e-7), ('diagonalization', 'cg', 'ppcg'), ('mixing_mode', 'TF', 'local-TF'),
       ('mixing_beta', 0.7, 0.05), ('electron_maxstep', 33, 7), ('calc_name', 'foo', 'bar_1'), ('kpts', [6, 3, 4], 1 / 0.35), ('pp', ['N.b.UPF', 'Al.a.UPF'], 'pbe.UPF')]
BASE = dict(pp='pz.UPF', pseudo_dir='/some/pseudo', outdir='/some/scratch')

def gen_set(tier):
    for m in range(1 << len(SET)):
        yield [m, 0]
        if m and (tier != 'quick' or bin(m).count('1') in (1, 2, 10)):
            yield [m, 1]

def pwconf(m, which=0):
    c = dict(BASE)
    for i, (k, a, b) in enumerate(SET):
        if m >> i & 1:
            c[k] = (a, b)[which]
    return c

@chk.group(gen_set)
def pw_settings(case, ctx):
    m, which = case
    if not m:
        ctx.trivial()
    conf = pwconf(m, which)
    d = ctx.tmp()
    at = atoms()
    keep = freeze([at.get_positions(), np.array(at.get_cell()), repr(conf)])
    given = {k: list(v) if isinstance(v, list) else v for k, v in conf.items()}
    calc = C.Pwscf(label='pw', directory=d, command='true', **given)
    for rep in range(2):
        calc.write_input(at)
        check_pw(open(os.path.join(d, 'pw.in')).read(), at, conf)
    check(given == conf and freeze([at.get_positions(), np.array(at.get_cell()), repr(conf)]) == keep, 'settings or atoms changed')
    check(set(os.listdir(d)) == {'pw.in'}, 'files %r' % os.listdir(d))
    if which == 0 and bin(m).count('1') <= 1:
        for bad in ('foo', 'ecut', 'prefix', 'x'):
            check(raises(lambda: C.Pwscf(label='pw', directory=d, command='true', **dict(conf, **{bad: 1}))), 'unknown setting accepted')
        for k in ('pp', 'pseudo_dir', 'outdir'):
            cc = dict(conf)
            cc.pop(k)
            check(raises(lambda: C.Pwscf(label='pw', directory=d, command='true', **cc)), 'missing %s accepted' % k)
        check(raises(lambda: C.Pwscf(label='pw', directory=d, command='true', xc='PBE', **conf)), 'xc accepted')
        check(raises(lambda: C.Pwscf(label='pw', directory=d, command='true', smearing='mv', **conf)), 'smearing accepted')
    ctx.eval(2)

LSET = [('pair_style', 'eam/alloy'), ('pair_coeff', '* * /pot/AlN.eam N Al'), ('backup', True), ('label', 'foo')]

# --- defaults belong to the class, settings to the calculator
@chk.group(lambda tier: [[list(s)] for n in (1, 2, 3) for s in itertools.permutations(range(4), n)])
def defaults(case, ctx):
    base = freeze([C.Lammps.default_parameters, C.Pwscf.default_parameters])
    d = ctx.tmp()
    for i in case[0]:
        if i == 0:
            c = C.Lammps()
            c.parameters['pair_style'] = 'changed'
        elif i == 1:
            c = C.Lammps(pair_style='eam')
            c.set(pair_coeff='changed')
        elif i == 2:
            c = C.Pwscf(pp='X.UPF', pseudo_dir='/p', outdir='/o', directory=d)
            c.set(ecutwfc=33.0)
        else:
            C.Lammps().set(pair_coeff='changed')
        check(freeze([C.Lammps.default_parameters, C.Pwscf.default_parameters]) == base, 'default parameters of the class changed')
        n = C.Lammps(directory=d)
        n.write_input(atoms())
        t = open(os.path.join(d, 'lmp.in')).read()
        check('pair_style tersoff' in t and 'pair_coeff * * ./AlN.tersoff Al N' in t, 'settings of another calculator')
        ctx.eval()

@chk.group(lambda tier: [[list(o), m] for o in itertools.permutations(['aa', 'bb', 'cc']) for m in range(8)])
def find_exe(case, ctx):
    names, m = case
    d = ctx.tmp()
    for i, n in enumerate(['aa', 'bb', 'cc']):
        if m >> i & 1:
            open(os.path.join(d, n), 'w').write('#!/bin/sh\n')
            os.chmod(os.path.join(d, n), 0o755)
    have = [n for n in names if m >> ['aa', 'bb', 'cc'].index(n) & 1]
    if not have:
        ctx.trivial()
    old = os.environ['PATH']
    os.environ['PATH'] = d
    try:
        for arg in (names, tuple(names)):
            check(C.find_exe(arg) == (os.path.join(d, have[0]) if have else None), lambda: 'find_exe(%r) = %r, installed %r' % (arg, C.find_exe(arg), have))
        for n in names:
            check(C.find_exe(n) == (os.path.join(d, n) if n in have else None), 'find_exe(%r)' % n)
    finally:
        os.environ['PATH'] = old

# --- two calculators in all interleavings -----------------------------------------
EVENTS = [p for p in set(itertools.permutations('AaBb')) if p.index('A') < p.index('a') and p.index('B') < p.index('b')]

def gen_two(tier):
    ms = [0, 1, 2, 1 << 7, 1 << 8, 1 << 9, 0b1111111111, 0b0101010101] + ([] if tier == 'quick' else [1 << i for i in range(2, 7)] + [3, 6, 0b11111])
    for ma in ms:
        for mb in ms:
            for ev in sorted(EVENTS):
                yield ['pw', ma, mb, ''.join(ev)]
    for ma in range(1 << len(LSET)):
        for mb in range(1 << len(LSET)):
            for ev in sorted(EVENTS)[:6 if tier != 'quick' else 2 + (ma + mb) % 2]:
                yield ['lmp', ma, mb, ''.join(ev)]

@chk.group(gen_two)
def two(case, ctx):
    what, ma, mb, ev = case
    if ma == mb == 0:
        ctx.trivial()
    root = ctx.tmp()
    conf, at, calc, default = {}, {}, {}, None
    cls = C.Pwscf if what == 'pw' else C.Lammps
    before = freeze(repr(sorted(cls.default_parameters.items(), key=repr)))
    for n, m, w in (('a', ma, 0), ('b', mb, 1)):
        conf[n] = pwconf(m, w) if what == 'pw' else {k: v for i, (k, v) in enumerate(LSET) if m >> i & 1}
        at[n] = atoms('tri' if n == 'a' else 'hex', 0, ('Al', 'N', 'N') if n == 'a' else ('N', 'Al'), 3 if n == 'a' else 4)
    def check_one(n):
        d = os.path.join(root, n)
        if what == 'pw':
            check_pw(open(os.path.join(d, 'pw.in')).read(), at[n], conf[n])
        else:
            check_lmp(d, conf[n].get('label', 'lmp'), at[n], conf[n])
    for e in ev:
        n = e.lower()
        if e.isupper():
            calc[n] = cls(directory=os.path.join(root, n), command='true', **conf[n])
        else:
            calc[n].write_input(at[n])
            check_one(n)
    for n in 'ab':
        calc[n].write_input(at[n])
        check_one(n)
        for k, v in conf[n].items():
            if k != 'label':
                check(freeze(getattr(calc[n], k)) == freeze(v) and freeze(calc[n].parameters[k]) == freeze(v), 'setting %s of calculator %s' % (k, n))
        other = conf['b' if n == 'a' else 'a']
        for k in other:
            if k not in conf[n] and k not in ('label',):
                check(freeze(calc[n].parameters[k]) != freeze(other[k]), 'setting %s leaked from another calculator' % k)
    check(freeze(repr(sorted(cls.default_parameters.items(), key=repr))) == before, 'defaults changed by creating calculators')
    ctx.eval(4)

# --- structures ------------------------------------------------------------------
SYMS = [['N', 'Na'], ['Na', 'N', 'N'], ['C', 'Ca', 'Cl', 'C'], ['Cl', 'C'], ['S', 'Si', 'S'], ['H'], ['Si', 'C', 'Si'], ['O', 'H', 'H', 'O'], ['Al', 'N', 'Al', 'N', 'N']]

def gen_st(tier):
    for sy in SYMS:
        for c in CELLS:
            for r in range(3):
                yield [sy, c, r]

@chk.group(gen_st)
def structures(case, ctx):
    sy, c, r = case
    uni = sorted(set(sy))
    pps = ['one.UPF'] + [['%s%s' % (s, t) for s in o] for o in itertools.permutations(uni) for t in ('.pbe.UPF', '_x.upf', '-1.UPF')]
    at = atoms(c, r, sy, 5)
    at.positions[0] += at.get_cell()[0] * 0.2 - at.get_cell()[2] * 0.1
    for kp in (0.8, 1 / 0.35, 5, [1, 1, 1], (4, 2, 9), np.array([3, 3, 2])):
        for j, pp in enumerate(pps if isinstance(kp, int) else pps[:2]):
            d = ctx.tmp()
            conf = dict(BASE, pp=pp, kpts=kp)
            C.Pwscf(label='pw', directory=d, command='true', **conf).write_input(at)
            check_pw(open(d + '/pw.in').read(), at, conf)
            ctx.eval(1)
    d = ctx.tmp()
    C.Lammps(label='lmp', directory=d, command='true').write_input(at)
    check_lmp(d, 'lmp', at, {})
    at.positions[0] += 0.1
    C.Lammps(label='lmp', directory=d, command='true').write_input(at)
    check_lmp(d, 'lmp', at, {})
    ctx.eval(2)

# --- results -----------------------------------------------------------------------
def run_calc(at, calc):
    at.calc = calc
    return at.get_potential_energy(), at.get_forces(), at.get_stress(voigt=False)

def gen_res(tier):
    for what in ('pw', 'lmp'):
        for r in range(3):
            for c in CELLS:
                for label in (None, 'foo'):
                    for rel in (0, 1, 2):
                        yield [what, r, c, label, rel]

@chk.group(gen_res)
def results(case, ctx):
    what, r, c, label, rel = case
    root = ctx.tmp()
    src, d = root + '/src', root + '/work/calc'
    os.makedirs(src)
    os.makedirs(root + '/work')
    lab = label or {'pw': 'pw', 'lmp': 'lmp'}[what]
    kw = {} if label is None else dict(label=label)
    sy = ['Al', 'N', 'N']
    at = atoms(c, r, sy)
    L = CELLS[c]
    if what == 'pw':
        cls, fn, raw, opt = outgen.pw_scf(src, dict(nat=3, miss=[], tag='a_0'))
        cmd = 'test -s %s.in && cp %s %s.out' % (lab, fn, lab)
        if label is None:
            cmd = 'test -s pw.in && cp %s pw.out' % fn
        mk = lambda dd: C.Pwscf(directory=dd, command=cmd, **BASE, **kw)
        u = outgen.UNITS[cls]
        ref = [raw['etot'] * u['energy'], np.array(raw['forces']) * u['forces'], np.array(raw['stress']) * u['stress']]
    else:
        cols = ['id', 'type', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz']
        th = ['Step', 'Temp', 'Volume', 'Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma', 'PotEng', 'Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz']
        cls, fn, raw, opt = outgen.lammps(src, dict(nat=3, ns=1, thermo=th, dump=cols, box='tri', symbols=None, miss=[]))
        # the fake program follows the file names of its input
        sh = root + '/lmp.sh'
        open(sh, 'w').write('set -e\nrd=`sed -n "s/^read_data //p"`\ntest -s $rd\ndp=`sed -n "s/^dump .* custom 1 \\([^ ]*\\) .*/\\1/p" %s.in`\ncp %s/lmp.out.dump $dp\ncat %s\n' % (lab, src, fn))
        cmd = 'sh %s < %s.in > %s.out' % (sh, lab, lab)
        mk = lambda dd: C.Lammps(directory=dd, command=cmd, **kw)
        u = outgen.UNITS[cls]
        # orientation: program cell @ Q = cell of the atoms
        Q = np.linalg.solve(np.array(co.cc2cell(co.cell2cc(np.array(at.get_cell())))), np.array(at.get_cell()))
        ref = [raw['etot'][0] * u.get('energy', 1.0), np.array(raw['forces'][0]) * u.get('forces', 1.0) @ Q, Q.T @ (np.array(raw['stress'][0]) * u['stress']) @ Q]
    old = os.getcwd()
    try:
        os.chdir(root + '/work')
        dd = [d, 'calc', './calc/'][rel]
        e, f, s = run_calc(at, mk(dd))
        assert_close(e, ref[0], 'energy', 1e-6, 0)
        assert_close(f, ref[1], 'forces', 1e-6, 1e-6)
        s3 = (ref[2] + ref[2].T) / 2 if what == 'pw' else ref[2]
        S = -np.array(s) * 160.21766
        for i in range(3):
            for j in range(3):
                lo, hi = sorted((ref[2][i][j], ref[2][j][i]))
                check(lo - 1e-4 - 1e-5 * abs(lo) <= S[i][j] <= hi + 1e-4 + 1e-5 * abs(hi), 'stress %r, program output (GPa) %r' % (S, ref[2]))
        n = len(os.listdir(d))
        check({lab + '.in', lab + '.out'} <= set(os.listdir(d)), 'files')
    finally:
        os.chdir(old)
    if what == 'pw':
        check_pw(open(d + '/%s.in' % lab).read(), at, BASE)
    else:
        check_lmp(d, lab, at, {})
    ctx.eval(3)
    if [r, c, label, rel] == [0, 'tri', None, 0]:
        # conversion of the stress tensor
        for k in range(6):
            t = np.zeros((3, 3))
            i, j = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)][k]
            t[i, j] = t[j, i] = 160.21766
            assert_close(C.stress_pwtools2ase(t), [-1.0 if q == k else 0.0 for q in range(6)], 'stress component %i' % k, 1e-5, 1e-12)
        # a missing output is an error
        cc = mk(root + '/other')
        cc.write_input(at)
        check(raises(cc.read_results), 'missing output file')

# --- old files of which some are missing ---------------------------------------------
FILES = dict(pw=['pw.in', 'pw.out'], lmp=['lmp.in', 'lmp.out', 'lmp.out.dump', 'lmp.struct', 'lmp.struct.symbols', 'log.lammps'])

@chk.group(lambda tier: [[w, m, b, o] for w in ('pw', 'lmp') for m in range(1 << len(FILES[w])) for b in (0, 1) for o in (0, 1, 2)])
def left_overs(case, ctx):
    """any subset of the files of an old run is there, with older backups"""
    what, m, backup, older = case
    d = ctx.tmp()
    names = [n for i, n in enumerate(FILES[what]) if m >> i & 1]
    for n in names + ['other.txt']:
        open(os.path.join(d, n), 'w').write('old ' + n)
        for k in range(older):
            open(os.path.join(d, '%s.%i' % (n, k)), 'w').write('older %i' % k)
    before = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
    kw = dict(BASE, label='pw') if what == 'pw' else dict(label='lmp')
    calc = (C.Pwscf if what == 'pw' else C.Lammps)(directory=d, command='true', backup=bool(backup), **kw)
    calc.write_input(atoms('tri', 1))
    new = ['pw.in'] if what == 'pw' else ['lmp.in', 'lmp.struct', 'lmp.struct.symbols']
    want = {f: t for f, t in before.items() if f not in new}
    if backup:
        want.update({'%s.%i' % (n, older): 'old ' + n for n in names})
    got = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
    for n in new:
        check(got.pop(n, 'old').find('old') < 0, n + ' not written')
    assert_equal(got, want, 'files after write_input')
    if not names:
        ctx.trivial()

# --- histories with backup ------------------------------------------------------------
MOVES = ('pos', 'cell', 'sym', 'none')

def gen_hist(tier):
    n = 3 if tier == 'quick' else 4
    for what in ('pw', 'lmp'):
        for backup in (False, True):
            for h in seqs(MOVES, n - 1, 1):
                yield [what, backup, list(h)]

@chk.group(gen_hist)
def history(case, ctx):
    what, backup, h = case
    root = ctx.tmp()
    d = root + '/calc'
    at = atoms('tri', 1)
    lab = {'pw': 'pw', 'lmp': 'lmp'}[what]
    outs = []
    for i in range(len(h) + 1):
        o = '%s/src%i' % (root, i)
        os.makedirs(o)
        if what == 'pw':
            outs.append(outgen.pw_scf(o, dict(nat=3, miss=[], tag='a_0'))[1:3])
            t = open(outs[-1][0]).read()
            open(outs[-1][0], 'w').write(t.replace('     PWSCF        :     2.21s CPU', '     PWSCF        :     2.2%is CPU' % i))
        else:
            th = ['Step', 'PotEng', 'Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz']
            outs.append(outgen.lammps(o, dict(nat=3, ns=1, thermo=th, dump=['id', 'type', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz'], box='tri', symbols=None, miss=[], tilt=i))[1:3])
            t = open(outs[-1][0]).read()
            open(outs[-1][0], 'w').write(t.replace('0.175041', '0.1750%i' % i))
    sh = root + '/prog.sh'
    cnt = root + '/cnt'
    open(cnt, 'w').write('0')
    if what == 'pw':
        open(sh, 'w').write('n=`cat %s`\ncp %s/src$n/pw.out pw.out\n' % (cnt, root))
    else:
        open(sh, 'w').write('n=`cat %s`\ncp %s/src$n/lmp.out.dump .\ncp %s/src$n/log.lammps .\ncp log.lammps lmp.out\n' % (cnt, root, root))
    kw = dict(BASE, label='pw') if what == 'pw' else dict(label='lmp')
    calc = (C.Pwscf if what == 'pw' else C.Lammps)(directory=d, command='sh %s' % sh, backup=backup, **kw)
    names = ['pw.in', 'pw.out'] if what == 'pw' else ['lmp.in', 'lmp.out', 'lmp.out.dump', 'lmp.struct', 'lmp.struct.symbols', 'log.lammps']
    at.calc = calc
    seen, ncalc = {k: [] for k in names}, 0
    for i in range(len(h) + 1):
        if i:
            m = h[i - 1]
            if m == 'pos':
                at.positions[1] += 0.1
            elif m == 'cell':
                at.set_cell(np.array(at.get_cell()) * 1.02, scale_atoms=True)
            elif m == 'sym':
                sy = at.get_chemical_symbols()
                at.set_chemical_symbols(sy[1:] + sy[:1])
            elif m == 'none':
                at.get_forces()
                continue
        open(cnt, 'w').write(str(ncalc))
        e = at.get_potential_energy()
        raw = outs[ncalc][1]
        assert_close(e, np.ravel(raw['etot'])[0] * (outgen._Ry if what == 'pw' else 1.0), 'energy of calculation %i' % ncalc, 1e-6, 0)
        ncalc += 1
        for k in names:
            seen[k].append(open(d + '/' + k).read())
        if what == 'pw':
            check_pw(seen['pw.in'][-1], at, kw)
        else:
            check_lmp(d, lab, at, {})
    have = set(os.listdir(d))
    if backup:
        for k in names:
            for i, t in enumerate(seen[k][:-1]):
                check(any(open(d + '/' + f).read() == t for f in have if f.startswith(k)), 'content of %s of calculation %i is lost' % (k, i))
            for i, t in enumerate(seen[k][:-1]):
                check(os.path.exists('%s/%s.%i' % (d, k, i)) and open('%s/%s.%i' % (d, k, i)).read() == t, '%s.%i is not the file of calculation %i' % (k, i, i))
    else:
        check(have == set(names), 'files %r' % have)
    if ncalc < 2:
        ctx.trivial()
    ctx.eval(ncalc)
