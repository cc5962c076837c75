"""P41: every element keeps its number, mass and symbol everywhere."""
import os, re, itertools, pickle, math
import numpy as np
import ase.data
import scipy.constants as sc
from mc import *
import co
from pwtools import atomic_data, constants, crys, io, pwscf, lammps, parse, common, symmetry

chk = Check('P41', level='exploration',
    rule='All elements of the periodic table, alone and together with lighter and heavier ones in every order, through every derived quantity, every file writer with its reader and every conversion; numbers and masses compared with the tables of ase. All constants against CODATA values and their definitions in terms of each other. Non-trivial: more than one kind of atom.',
    assumptions=['systematic names for elements named after the table was made', 'masses to 0.2 percent (0.9 percent for elements without stable isotopes)'])

OLD = {'Cn': 'Uub', 'Nh': 'Uut', 'Fl': 'Uuq', 'Mc': 'Uup', 'Lv': 'Uuh', 'Ts': 'Uus', 'Og': 'Uuo'}
EL = [OLD.get(s, s) for s in ase.data.chemical_symbols]
NZ = len(EL) - 1
STD = [z for z in range(1, NZ + 1) if EL[z] == ase.data.chemical_symbols[z]]   # known to other programs

@chk.group(lambda tier: [[z] for z in range(1, NZ + 1)])
def table(case, ctx):
    z, = case
    sy = EL[z]
    a = atomic_data
    check(len(a.symbols) == len(a.masses) == len(a.covalent_radii) == NZ + 1, lambda: 'table sizes %s' % [len(x) for x in (a.symbols, a.masses, a.covalent_radii)])
    check(a.symbols[z] == sy, lambda: 'symbols[%i] = %r' % (z, a.symbols[z]))
    check(a.numbers[sy] == z and a.pt[sy]['number'] == z, 'number of ' + sy)
    m = ase.data.atomic_masses[z]
    check(abs(a.masses[z] / m - 1) < (0.002 if z < 104 else 0.009), lambda: 'mass of %s: %r' % (sy, a.masses[z]))
    r = ase.data.covalent_radii[z]
    check(a.covalent_radii[z] == (r if z < 97 else -1), lambda: 'radius of %s: %r' % (sy, a.covalent_radii[z]))
    check([a.pt[sy][k] for k in ('number', 'mass', 'cov_rad')] == [z, a.masses[z], a.covalent_radii[z]], 'pt of ' + sy)
    check(set(a.symbols) <= set(a.pt) and set(a.symbols) <= set(a.numbers) and len(set(a.symbols)) == NZ + 1, 'keys')

ORD = ['X', 'XX', 'HX', 'XH', 'XUX', 'UXH', 'HUX', 'XHUX']
def make(z, o, traj=False):
    kinds = {'X': EL[z], 'H': 'H' if z != 1 else 'He', 'U': 'Pu' if EL[z] != 'Pu' else 'Np'}
    sy = [kinds[c] for c in o]
    n = len(sy)
    kw = dict(symbols=sy, cell=np.array(co.CELLS['tri']))
    if traj:
        return sy, crys.Trajectory(coords_frac=np.array([co.gen_frac(n, 1), co.gen_frac(n, 2)]), **kw)
    return sy, crys.Structure(coords_frac=co.gen_frac(n, 1), **kw)

def mass(s):
    return atomic_data.masses[EL.index(s)]
def uni(sy):
    out = []
    for s in sy:
        if s not in out: out.append(s)
    return sorted(out)

@chk.group(lambda tier: [[z, o, t] for z in range(1, NZ + 1) for o in ORD for t in (0, 1)])
def derived(case, ctx):
    z, o, t = case
    sy, st = make(z, o, t)
    if len(set(sy)) == 1:
        ctx.trivial()
    u = list(st.symbols_unique)
    check(sorted(u) == uni(sy) and len(u) == len(set(u)), lambda: 'unique %s' % u)
    check(list(st.symbols) == sy and st.natoms == len(sy), 'symbols')
    check(list(st.znucl) == [EL.index(s) for s in sy], lambda: 'znucl %s' % st.znucl)
    check(list(st.znucl_unique) == [EL.index(s) for s in u], 'znucl_unique')
    assert_close(st.mass, [mass(s) for s in sy], 'mass', 1e-15, 0)
    assert_close(st.mass_unique, [mass(s) for s in u], 'mass_unique', 1e-15, 0)
    check([u[st.order[s] - 1] for s in sy] == sy and [u[i - 1] for i in st.typat] == sy, 'order, typat')
    check(st.nspecies == {s: sy.count(s) for s in set(sy)} and st.ntypat == len(u), 'nspecies')
    if not t:
        p = pickle.loads(pickle.dumps(st.copy()))
        check(list(p.symbols) == sy, 'copy')
        if z in STD:
            at = st.get_ase_atoms(pbc=True)
            check(list(at.get_atomic_numbers()) == [EL.index(s) for s in sy], 'ase numbers')
            check(list(crys.atoms2struct(at).symbols) == sy, 'from ase')
        spg = st.get_spglib()
        check(list(spg[2]) == [EL.index(s) for s in sy], 'spglib numbers')
        check(list(symmetry.spglib2struct(spg).symbols) == sy, 'from spglib')
        sup = crys.scell(st, (2, 1, 1))
        check(sorted(sup.symbols) == sorted(sy * 2), 'supercell')
    else:
        check(all(list(st[i].symbols) == sy and list(st[i].znucl) == [EL.index(s) for s in sy] for i in range(2)), 'steps')

@chk.group(lambda tier: [[z, o] for z in range(1, NZ + 1) for o in ORD[2:]])
def files(case, ctx):
    z, o = case
    d = ctx.tmp()
    sy, st = make(z, o)
    # text for PWscf
    u = list(st.symbols_unique)
    sp = [(s, mass(s), s + '.UPF') for s in u]
    rows = [r.split() for r in pwscf.atspec_str(u, st.mass_unique, [s + '.UPF' for s in u]).strip().split('\n')]
    check([(r[0], r[2]) for r in rows] == [(a, c) for a, _, c in sp], 'ATOMIC_SPECIES')
    assert_close([float(r[1]) for r in rows], [b for _, b, _ in sp], 'masses in ATOMIC_SPECIES', 1e-5, 0)
    rows = [r.split() for r in pwscf.atpos_str(sy, st.coords_frac).strip().split('\n')]
    check([r[0] for r in rows] == sy, 'ATOMIC_POSITIONS')
    # lammps
    L = lammps.struct_str(st).split('\n')
    i = L.index('Masses')
    rows = [r.split() for r in L[i + 1:] if r.strip()]
    check([int(r[0]) for r in rows] == list(range(1, len(u) + 1)), 'types')
    assert_close([float(r[1]) for r in rows], [mass(s) for s in u], 'masses for lammps', 1e-5, 0)
    i = L.index('Atoms')
    rows = [r.split() for r in L[i + 1:L.index('Masses')] if r.strip()]
    check([u[int(r[1]) - 1] for r in rows] == sy, 'types of the atoms')
    fn = os.path.join(d, 'lmp.struct')
    io.write_lammps(fn, st)
    check(open(fn + '.symbols').read().split() == sy, 'symbols file')
    # xyz, axsf
    fn = os.path.join(d, 'x.xyz'); io.write_xyz(fn, st)
    check([l.split()[0] for l in open(fn).read().split('\n')[2:2 + len(sy)]] == sy, 'xyz')
    fn = os.path.join(d, 'x.axsf'); io.write_axsf(fn, st)
    L = open(fn).read().split('\n')
    i = [k for k, l in enumerate(L) if l.startswith('PRIMCOORD')][0]
    check([l.split()[0] for l in L[i + 2:i + 2 + len(sy)]] in (sy, [str(EL.index(s)) for s in sy]), 'axsf')
    # cif, pickle, h5
    fn = os.path.join(d, 'x.cif'); io.write_cif(fn, st)
    if z in STD:
        check(list(io.read_cif(fn).symbols) == sy, lambda: 'cif: %s' % io.read_cif(fn).symbols)
    fn = os.path.join(d, 'x.pk'); st.dump(fn)
    check(list(io.read_pickle(fn).symbols) == sy, 'pickle')
    # pdb, labels with and without number
    fn = os.path.join(d, 'x.pdb')
    with open(fn, 'w') as f:
        f.write('CRYST1   10.000   11.000   12.000  90.00  90.00  90.00 P 1\n')
        for i, s in enumerate(sy):
            f.write('ATOM  %5i %-4s UNK A   1    %8.3f%8.3f%8.3f  1.00  0.00\n' % (i + 1, s, i, 2 * i, 1))
    check(list(io.read_pdb(fn).symbols) == sy, lambda: 'pdb: %s' % io.read_pdb(fn).symbols)
    for lab in ('{0}', '{0}{1}', '{0}{1:02d}'):
        fn = os.path.join(d, 'y.cif')
        with open(fn, 'w') as f:
            f.write('data_x\n_cell_length_a 5\n_cell_length_b 6\n_cell_length_c 7\n_cell_angle_alpha 90\n_cell_angle_beta 90\n_cell_angle_gamma 90\n'
                    'loop_\n_atom_site_label\n_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n')
            for i, s in enumerate(sy):
                f.write(lab.format(s, i + 1) + ' %f %f %f\n' % tuple(st.coords_frac[i]))
        got = list(io.read_cif(fn).symbols)
        check(got == sy, lambda: 'cif labels %s: %s' % (lab, got))

# --- constants -------------------------------------------------------------------------------
CODATA = dict(alpha=sc.alpha, h=sc.h, hbar=sc.hbar, m0=sc.m_e, e0=sc.e, mu0=sc.mu_0, c0=sc.c, eps0=sc.epsilon_0, a0=sc.value('Bohr radius'), Eh=sc.value('Hartree energy'),
              th=sc.value('atomic unit of time'), kb=sc.k, avo=sc.N_A, dyn=1e-5, R=sc.R, amu=sc.value('atomic mass constant'), Ang=1e-10, fs=1e-15, ps=1e-12, pi=math.pi,
              Eryd=sc.value('Rydberg constant times hc in J'), tryd=2 * sc.value('atomic unit of time'), eV=sc.e, GPa=1e9, a0_to_A=sc.value('Bohr radius') * 1e10,
              Ry_to_eV=sc.value('Rydberg constant times hc in eV'), Ry_to_Ha=0.5, Ha_to_eV=sc.value('Hartree energy in eV'), J_to_eV=1 / sc.e, Ry_to_J=sc.value('Rydberg constant times hc in J'),
              J_to_rcm=1 / (sc.h * sc.c * 100), Ry_to_rcm=sc.value('Rydberg constant') / 100, rcm_to_Hz=sc.c * 100, Ry_to_Hz=sc.value('Rydberg constant times c in Hz'),
              eV_by_Ang3_to_Pa=sc.e * 1e30, eV_by_Ang3_to_GPa=sc.e * 1e21)
ALIAS = dict(Ha='Eh', Ry='Eryd', Bohr='a0', Bohr_to_Ang='a0_to_A', Hartree='Eh', Rydberg='Eryd', Angstrom='Ang', hplanck='h', thart='th')
@chk.group(lambda tier: [[k] for k in list(CODATA) + list(ALIAS)])
def const(case, ctx):
    k, = case
    c = constants
    assert_close(getattr(c, k), CODATA[ALIAS.get(k, k)], k, 2e-6, 0)
    if k in ALIAS:
        check(getattr(c, k) == getattr(c, ALIAS[k]), 'alias')
    # definitions in terms of each other, to the digits the table has
    rel = [(c.hbar, c.h / 2 / math.pi), (c.eps0, 1 / (c.mu0 * c.c0 ** 2)), (c.a0, 4 * math.pi * c.eps0 * c.hbar ** 2 / (c.m0 * c.e0 ** 2)), (c.alpha, c.e0 ** 2 / (4 * math.pi * c.eps0 * c.hbar * c.c0)),
           (c.Eh, c.alpha ** 2 * c.m0 * c.c0 ** 2), (c.th, c.hbar / c.Eh), (c.R, c.kb * c.avo), (c.amu, 1e-3 / c.avo), (c.Ha_to_eV, c.Eh / c.eV), (c.Ry_to_J, c.Ry), (c.tryd, c.hbar / c.Eryd)]
    for i, (a, b) in enumerate(rel):
        check(abs(a / b - 1) < 2e-7, lambda: 'definition %i: %r' % (i, a / b - 1))
