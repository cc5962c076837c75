"""P12: structure files written by the library, read back by independent
readers of the published formats (and by the library's reader for cif)."""
import itertools, os, re
import numpy as np
from mc import *
import co
from pwtools import crys, io, pwscf, lammps, constants

chk = Check('P12', level='exploration',
    rule='All combinations of cell x symbol list x coordinate set x step count x forces present or not x construction (fractional, cartesian) x file format; each file is read by a reader written here from the format definition. Non-trivial: every case.',
    assumptions=['element symbols only', 'right-handed cells (left-handed ones for the formats that store cell vectors)',
                 'coordinates below 1e6 Angstrom'])

SYMS = [['Al'], ['O', 'H', 'H'], ['Si', 'Al', 'O', 'Al', 'H'], ['N', 'N'], ['H', 'C', 'N', 'C', 'H', 'O']]
CELLS = dict(co.CELLS)
CELLS['left'] = co.CELLS['tri'][[1, 0, 2]].copy()
CELLS['tiny'] = co.CELLS['mono'] * 0.01
CELLS['huge'] = co.CELLS['tri'] * 1e4
# no round numbers; tiny tilts, tiny components
CELLS['odd'] = co.cc2cell([3.1 * 2 ** 0.5, 2.7 * 3 ** 0.5, 4.1 * 5 ** 0.5, 77 + 2 ** 0.5 / 3, 81 + 3 ** 0.5 / 7, 94 + 5 ** 0.5 / 9])
CELLS['near'] = np.array([[3.7, 0, 0], [4e-7, 4.9, 0], [-3e-7, 8e-9, 5.3]])
HA_EV = 4.35974394e-18 / 1.602176487e-19

def frac_set(k, n, nstep):
    out = []
    for t in range(nstep):
        f = co.gen_frac(n, 3 * k + t, -0.4, 1.7)
        if k == 1:
            f.flat[::4] = 0.0
            f.flat[1::5] = -0.25
            f.flat[2::7] = 1.0
        elif k == 2:
            f.flat[::3] = 1e-7
            f.flat[1::3] *= -40.0
            f.flat[2::7] = 3e-5
        elif k == 3:
            f = np.round(f * 8) / 8.0
        out.append(f)
    return np.array(out)

def build(cn, si, k, nstep, forces, frm):
    cell, sy = CELLS[cn], SYMS[si]
    n = len(sy)
    fr = frac_set(k, n, max(nstep, 1))
    ce = np.array([cell * (1.0 + 0.013 * t) for t in range(max(nstep, 1))])
    cart = np.array([co.f2c(f, c) for f, c in zip(fr, ce)])
    fo = co.gen_arr(cart.shape, 5 + k) * np.array([1e-5, 1.0, 30.0])
    kw = dict(symbols=list(sy))
    if nstep == 0:
        kw['cell'] = ce[0].copy()
        kw['coords_frac' if frm == 'frac' else 'coords'] = (fr if frm == 'frac' else cart)[0].copy()
        if forces:
            kw['forces'] = fo[0].copy()
        obj = crys.Structure(**kw)
    else:
        kw['cell'] = ce.copy()
        kw['coords_frac' if frm == 'frac' else 'coords'] = (fr if frm == 'frac' else cart).copy()
        if forces:
            kw['forces'] = fo.copy()
        obj = crys.Trajectory(**kw)
    return obj, ce, fr, cart, fo, sy

# ---- readers ---------------------------------------------------------------
def read_xyz(fn):
    lines = open(fn).read().split('\n')
    steps, i = [], 0
    while i < len(lines):
        if lines[i].strip() == '' and all(l.strip() == '' for l in lines[i:]):
            break
        n = int(lines[i]); name = lines[i + 1]
        sy, xyz = [], []
        for l in lines[i + 2:i + 2 + n]:
            t = l.split()
            assert len(t) == 4, l
            sy.append(t[0]); xyz.append([float(x) for x in t[1:]])
        assert len(sy) == n
        steps.append((name, sy, np.array(xyz)))
        i += 2 + n
    return steps

def read_axsf(fn):
    tok = [l.split() for l in open(fn).read().split('\n') if l.strip()]
    assert tok[0][0] == 'ANIMSTEPS'
    nst = int(tok[0][1])
    assert tok[1] == ['CRYSTAL']
    i, out = 2, []
    for t in range(nst):
        assert tok[i] == ['PRIMVEC', str(t + 1)], tok[i]
        cell = np.array([[float(x) for x in r] for r in tok[i + 1:i + 4]])
        assert cell.shape == (3, 3)
        assert tok[i + 4] == ['PRIMCOORD', str(t + 1)], tok[i + 4]
        n, one = [int(x) for x in tok[i + 5]]
        assert one == 1
        rows = tok[i + 6:i + 6 + n]
        assert len(rows) == n
        out.append((cell, [r[0] for r in rows], np.array([[float(x) for x in r[1:]] for r in rows])))
        i += 6 + n
    assert i == len(tok), 'trailing lines'
    return out

def read_cif_own(fn):
    txt = [l for l in open(fn).read().split('\n') if not l.startswith('#')]
    d, loops, i = {}, [], 0
    while i < len(txt):
        l = txt[i].strip()
        if l == 'loop_':
            i += 1
            names, rows = [], []
            while txt[i].strip().startswith('_'):
                names.append(txt[i].strip()); i += 1
            while i < len(txt) and txt[i].strip() and not txt[i].strip().startswith(('_', 'loop_')):
                rows.append(txt[i].replace("'", ' ').split()); i += 1
            loops.append((names, [x for r in rows for x in r]))
        elif l.startswith('_'):
            t = l.split(None, 1)
            if len(t) == 2:
                d[t[0]] = t[1]
            i += 1
        else:
            i += 1
    return d, loops

def read_lammps(fn):
    txt = open(fn).read().split('\n')
    def one(suffix):
        r = [l for l in txt[1:] if re.search(r'\s%s\s*$' % suffix, l)]
        assert len(r) == 1, (suffix, r)
        return [float(x) for x in r[0].split()[:-len(suffix.split())]]
    n, nt = int(one('atoms')[0]), int(one('atom types')[0])
    lo, hi = zip(one('xlo xhi'), one('ylo yhi'), one('zlo zhi'))
    xy, xz, yz = one('xy xz yz')
    cell = np.array([[hi[0] - lo[0], 0, 0], [xy, hi[1] - lo[1], 0], [xz, yz, hi[2] - lo[2]]])
    assert lo == (0.0, 0.0, 0.0)
    def section(name, k):
        i = [j for j, l in enumerate(txt) if l.strip() == name]
        assert len(i) == 1
        j = i[0] + 1
        while not txt[j].strip():
            j += 1
        rows = []
        while j < len(txt) and txt[j].strip():
            rows.append(txt[j].split()); j += 1
        assert len(rows) == k, (name, rows)
        return rows
    at = section('Atoms', n)
    ma = section('Masses', nt)
    assert [int(r[0]) for r in at] == list(range(1, n + 1))
    assert [int(r[0]) for r in ma] == list(range(1, nt + 1))
    return cell, [int(r[1]) for r in at], np.array([[float(x) for x in r[2:]] for r in at]), [float(r[1]) for r in ma]

def read_sgroup(fn):
    toks = []
    for l in open(fn).read().split('\n'):
        toks += l.split('/')[0].split()
    lat, cc, n = toks[0], [float(x) for x in toks[1:7]], int(toks[7])
    rest = toks[8:]
    assert len(rest) == 4 * n
    fr = np.array([[float(x) for x in rest[4 * i:4 * i + 3]] for i in range(n)])
    return lat, cc, fr, [rest[4 * i + 3] for i in range(n)]

def gen(tier):
    cells = list(CELLS) if tier != 'quick' else list(CELLS)
    for cn, si, k, nstep, fo, frm in itertools.product(cells, range(len(SYMS)), range(4), (0, 1, 2, 3, 11), (0, 1), ('frac', 'cart')):
        if tier == 'quick' and nstep == 11 and (k or si > 2):
            continue
        yield [cn, si, k, nstep, fo, frm]

@chk.group(gen)
def traj_formats(case, ctx):
    cn, si, k, nstep, forces, frm = case
    obj, ce, fr, cart, fo, sy = build(*case)
    n, d = len(sy), ctx.tmp()
    nst = max(nstep, 1)
    tol = 1e-12 * np.abs(ce).max() * 100
    # xyz
    fn = os.path.join(d, 'a.xyz')
    io.write_xyz(fn, obj) if k % 2 else io.write_xyz(fn, obj, name='mol')
    st = read_xyz(fn)
    check(len(st) == nst, lambda: 'xyz: %i steps instead of %i' % (len(st), nst))
    for t, (name, s, xyz) in enumerate(st):
        check(name == ('pwtools_dummy_mol_name' if k % 2 else 'mol') + '.%i' % (t + 1), lambda: 'xyz: name %r' % name)
        assert_equal(s, sy, 'xyz: symbols')
        assert_close(xyz, cart[t], 'xyz: coords of step %i' % t, rtol=1e-11, atol=tol)
    # axsf
    ctx.eval()
    fn = os.path.join(d, 'a.axsf')
    io.write_axsf(fn, obj)
    st = read_axsf(fn)
    check(len(st) == nst, lambda: 'axsf: %i steps instead of %i' % (len(st), nst))
    for t, (cell, s, xyz) in enumerate(st):
        assert_close(cell, ce[t], 'axsf: cell of step %i' % t, rtol=1e-11, atol=tol)
        assert_equal(s, sy, 'axsf: symbols')
        check(xyz.shape == (n, 6 if forces else 3), lambda: 'axsf: shape %s' % (xyz.shape,))
        assert_close(xyz[:, :3], cart[t], 'axsf: coords of step %i' % t, rtol=1e-11, atol=tol)
        if forces:
            assert_close(xyz[:, 3:], fo[t] / HA_EV, 'axsf: forces of step %i' % t, rtol=1e-10, atol=1e-15)
    # strings
    ctx.eval(2)
    for t in range(nst):
        a = pwscf.atpos_str(sy, fr[t])
        rows = [r.split() for r in a.split('\n')]
        assert_equal([r[0] for r in rows], sy, 'atpos_str symbols')
        assert_close(np.array([[float(x) for x in r[1:]] for r in rows]), fr[t], 'atpos_str', rtol=1e-14, atol=3e-15)
        # small numbers are kept on request
        tiny = fr[t] * 10.0 ** -np.arange(3)[None, :] ** 3 / 1e6
        tiny.flat[0] = -3e-17
        for eps, delim, fm in itertools.product((-1.0, 0.0, 1e-12, 1e-3), (' ', '  ;  '), ('%.16e', '%24.16g')):
            a = pwscf.atpos_str(sy, tiny, eps=eps, delim=delim, fmt=fm)
            rows = [[x.strip() for x in r.split(delim) if x.strip()] for r in a.split('\n')]
            want = np.where(abs(tiny) < eps, 0.0, tiny)
            assert_close(np.array([[float(x) for x in r[1:]] for r in rows]), want, 'atpos_str, eps=%g' % eps, rtol=1e-14, atol=0)
            ctx.eval()
        a = pwscf.atpos_str_fast(sy, np.concatenate((fr[t], fo[t]), axis=1))
        rows = [r.split() for r in a.strip('\n').split('\n')]
        assert_equal([r[0] for r in rows], sy, 'atpos_str_fast symbols')
        assert_close(np.array([[float(x) for x in r[1:]] for r in rows]), np.concatenate((fr[t], fo[t]), axis=1),
                     'atpos_str_fast', rtol=1e-15, atol=0)
    # the object itself is as before
    assert_close(obj.coords if nstep else obj.coords[None], cart, 'object changed', rtol=1e-11, atol=tol)

def gen_s(tier):
    for cn, si, k, frm in itertools.product([c for c in CELLS if c != 'left'], range(len(SYMS)), range(4), ('frac', 'cart')):
        yield [cn, si, k, frm]

@chk.group(gen_s)
def struct_formats(case, ctx):
    cn, si, k, frm = case
    obj, ce, fr, cart, fo, sy = build(cn, si, k, 0, 0, frm)
    cell, fr, cart = ce[0], fr[0], cart[0]
    n, d = len(sy), ctx.tmp()
    cc = co.cell2cc(cell)
    L = np.abs(cell).max()
    uni = sorted(set(sy))
    # cif, own reader, library reader, ASE
    fn = os.path.join(d, 'a.cif')
    io.write_cif(fn, obj)
    dd, loops = read_cif_own(fn)
    got = [float(dd['_cell_' + x]) for x in ('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma')]
    assert_close(got, cc, 'cif: cell parameters', rtol=1e-11, atol=1e-11)
    lp = [(a, b) for a, b in loops if '_atom_site_fract_x' in a]
    check(len(lp) == 1, 'cif: one loop of atoms expected')
    names, vals = lp[0]
    check(len(vals) == n * len(names), lambda: 'cif: %i entries for %i atoms' % (len(vals), n))
    tab = {a: vals[i::len(names)] for i, a in enumerate(names)}
    assert_equal(tab['_atom_site_type_symbol'], sy, 'cif: symbols')
    for i, x in enumerate('xyz'):
        assert_close([float(v) for v in tab['_atom_site_fract_' + x]], fr[:, i], 'cif: fract ' + x, rtol=1e-10, atol=1e-11)
    st = io.read_cif(fn)
    ctx.eval()
    assert_equal(st.symbols, sy, 'cif read: symbols')
    assert_close(st.cryst_const, cc, 'cif read: cryst_const', rtol=1e-11, atol=1e-11)
    assert_close(st.coords_frac, fr, 'cif read: coords_frac', rtol=1e-10, atol=1e-11)
    assert_close(st.volume, co.volume(cell), 'cif read: volume', rtol=1e-9, atol=0)
    # lammps
    ctx.eval()
    base = ['lmp.struct.symbols', 'syms'][k % 2]
    fn = os.path.join(d, 'lmp.struct')
    io.write_lammps(fn, obj, symbolsbasename=base) if k % 2 else io.write_lammps(fn, obj)
    lc, typ, xyz, mass = read_lammps(fn)
    ec = co.cc2cell(cc)
    assert_close(lc, ec, 'lammps: cell', rtol=1e-10, atol=1e-11 * L)
    assert_equal(typ, [uni.index(s) + 1 for s in sy], 'lammps: types')
    assert_close(xyz, co.f2c(fr, ec), 'lammps: coords', rtol=1e-10, atol=1e-10 * L)
    assert_close(mass, [co.MASS[s] for s in uni], 'lammps: masses', rtol=1e-5, atol=0)
    assert_equal(open(os.path.join(d, base)).read().split(), sy, 'lammps: symbols file')
    assert_equal(sorted(os.listdir(d)), sorted(['a.cif', 'lmp.struct', base]), 'files written')
    # wien
    ctx.eval()
    fn = os.path.join(d, 'w.in')
    sym = 'PFICA'[k]
    io.write_wien_sgroup(fn, obj, lat_symbol=sym)
    lat, c2, f2, s2 = read_sgroup(fn)
    check(lat == sym, 'wien: lattice symbol')
    assert_close(c2, cc, 'wien: cell parameters', rtol=1e-11, atol=1e-11)
    assert_close(f2, fr, 'wien: coords', rtol=1e-10, atol=1e-11)
    assert_equal(s2, sy, 'wien: symbols')
    # ase
    ctx.eval(3)
    at = obj.get_ase_atoms()
    assert_close(np.array(at.get_cell()), cell, 'ase: cell', rtol=1e-11, atol=1e-11 * L)
    assert_close(at.get_positions(), cart, 'ase: positions', rtol=1e-10, atol=1e-9 * L)
    assert_equal(list(at.get_chemical_symbols()), sy, 'ase: symbols')
    check(not at.pbc.any(), 'ase: pbc')
    at2 = crys.struct2atoms(obj, pbc=True)
    check(at2.pbc.all(), 'ase: pbc=True')
    assert_close(at2.get_positions(), cart, 'ase: positions pbc', rtol=1e-10, atol=1e-9 * L)
    for a, wrapped in ((at, False), (at2, True)):
        st = crys.atoms2struct(a)
        assert_equal(st.symbols, sy, 'atoms2struct: symbols')
        assert_close(st.cell, cell, 'atoms2struct: cell', rtol=1e-11, atol=1e-11 * L)
        df = st.coords_frac - fr
        if wrapped:
            df = df - np.round(df)
        assert_close(df, np.zeros((n, 3)), 'atoms2struct: coords_frac', rtol=0, atol=1e-9)
    fa = obj.get_fake_ase_atoms()
    assert_close(fa.get_scaled_positions(), fr, 'fake ase: scaled positions', rtol=1e-10, atol=1e-11)
    assert_close(fa.get_positions(), cart, 'fake ase: positions', rtol=1e-10, atol=1e-10 * L)
    assert_equal([int(x) for x in fa.get_atomic_numbers()], [co.Z[s] for s in sy], 'fake ase: numbers')
    check(fa.get_number_of_atoms() == n, 'fake ase: natoms')
    # spglib
    c3, f3, z3 = obj.get_spglib()
    assert_close(c3, cell, 'spglib: cell', rtol=1e-11, atol=1e-11 * L)
    assert_close(f3, fr, 'spglib: coords', rtol=1e-10, atol=1e-11)
    assert_equal([int(x) for x in z3], [co.Z[s] for s in sy], 'spglib: znucl')

def gen_cif(tier):
    for block, label, cart, paren in itertools.product((None, 'one', 'two'), range(3), (0, 1, 2), (0, 1)):
        yield [block, label, cart, paren]

@chk.group(gen_cif)
def cif_variants(case, ctx):
    """cif files of other programs: several blocks, labels, cartesian
    coordinates, uncertainties"""
    block, label, cart, paren = case
    d = ctx.tmp()
    fn = os.path.join(d, 'x.cif')
    data = {'one': (['O', 'H', 'Al'], co.CC['tri'], 0), 'two': (['Si', 'N'], co.CC['mono'], 3)}
    txt = ''
    exp = {}
    first = 'one'
    if paren == 1 and label:
        # the first block of the file counts, not the first name
        first, data = 'two', dict(sorted(data.items(), reverse=True))
    for b, (sy, cc, seed) in data.items():
        sfx = '(3)' if paren else ''
        fr = np.round(co.gen_frac(len(sy), seed), 6)
        ca = np.round(co.f2c(fr, co.cc2cell(cc)), 6)
        txt += 'data_%s\n' % b
        for nm, v in zip(('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'), cc):
            txt += '_cell_%s   %.4f%s\n' % (nm, v, sfx)
        txt += 'loop_\n'
        cols = []
        lab = [s + '%i' % (i + 1) for i, s in enumerate(sy)]
        if label == 2:
            lab = ['%sw%i' % (s[0], i + 1) for i, s in enumerate(sy)]   # free text next to the type symbol
        typ = [s + ['2+', '3-', ''][i % 3] for i, s in enumerate(sy)]
        if label in (0, 2):
            cols.append(('_atom_site_label', lab))
        if label in (1, 2):
            cols.append(('_atom_site_type_symbol', typ))
        if cart in (0, 2):
            for i, x in enumerate('xyz'):
                cols.append(('_atom_site_fract_' + x, ['%.6f%s' % (v, sfx) for v in fr[:, i]]))
        if cart in (1, 2):
            for i, x in enumerate('xyz'):
                cols.append(('_atom_site_Cartn_' + x, ['%.6f%s' % (v, sfx) for v in ca[:, i]]))
        for nm, _ in cols:
            txt += nm + '\n'
        for i in range(len(sy)):
            txt += ' '.join(c[1][i] for c in cols) + '\n'
        txt += '\n'
        exp[b] = (sy, cc, fr, ca)
    open(fn, 'w').write(txt)
    st = io.read_cif(fn, block=block) if block else io.read_cif(fn)
    sy, cc, fr, ca = exp[block or first]
    assert_equal(st.symbols, sy, 'symbols')
    assert_close(st.cryst_const, cc, 'cryst_const', rtol=1e-10, atol=1e-10)
    assert_close(st.coords_frac, fr, 'coords_frac', rtol=0, atol=1e-6)
    assert_close(st.coords, ca, 'coords', rtol=0, atol=1e-5)

def gen_at(tier):
    for si, n in itertools.product(range(len(SYMS)), range(3)):
        yield [si, n]

@chk.group(gen_at)
def atspec(case, ctx):
    si, k = case
    sy = sorted(set(SYMS[si]))
    mass = [[co.MASS[s] for s in sy], [1.5] * len(sy), ['%.3f' % co.MASS[s] for s in sy]][k]
    pp = ['%s.pbe-n.UPF' % s for s in sy]
    rows = [r.split() for r in pwscf.atspec_str(sy, mass, pp).split('\n')]
    check(len(rows) == len(sy), 'number of lines')
    for r, s, m, p in zip(rows, sy, mass, pp):
        check(r[0] == s and float(r[1]) == float(m) and r[2] == p and len(r) == 3, lambda: 'line %r' % (r,))
    check(raises(lambda: pwscf.atspec_str(sy, mass + [1.0], pp)), 'lengths do not match')
    check(raises(lambda: pwscf.atspec_str(sy + ['X'], mass, pp)), 'lengths do not match')
    check(raises(lambda: pwscf.atpos_str(sy + ['X'], np.zeros((len(sy), 3)))), 'lengths do not match')
