"""P07: all input combinations of Structure and Trajectory against an
independent description of the crystal."""
import itertools
import numpy as np
from mc import *
import co
from pwtools import crys

chk = Check('P07', level='exploration',
    rule='All combinations of the ways to give lattice and coordinates x extra attributes x unit dictionaries x cells x symbol lists x step counts x eager/lazy set-up; each object is compared in all attributes with an independent computation. Non-trivial: at least one attribute has to be derived.',
    assumptions=['right-handed cells', 'float input arrays', 'physical constants as documented in constants.py (CODATA 2006)'])

SYMS = [['Al'], ['O', 'H', 'H'], ['Si', 'Al', 'O', 'Al'], ['N', 'N']]
LAT = ['cell', 'cc', 'both']
CRD = ['cart', 'frac', 'both']
EXTRA = [(), ('stress',), ('forces', 'etot'), ('stress', 'pressure', 'volume', 'forces', 'etot')]
UNITS = [None, {'length': 0.5}, {'length': 3.0, 'energy': 7.0, 'stress': -2.0, 'forces': 11.0},
         {'forces': 2.0, 'velocity': 5.0, 'time': 0.25, 'temperature': 13.0, 'energy': 0.5}]

def expect_lat(cell, cc, how, fac):
    """cell, cryst_const expected; a given quantity is kept"""
    if how == 'cc':
        c = np.array(cc, dtype=float)
        c[:3] *= fac
        return co.cc2cell(c), c
    e = cell * fac
    if how == 'cell':
        return e, co.cell2cc(e)
    c = np.array(cc, dtype=float)
    c[:3] *= fac
    return e, c

def compare(obj, exp, what):
    for k, v in exp.items():
        got = getattr(obj, k)
        if v is None:
            check(got is None, lambda: '%s: %s is %s, expected None' % (what, k, short(repr(got), 200)))
        elif isinstance(v, (list, dict, int)) and not isinstance(v, bool):
            check(got is not None and type(got) in (type(v), np.int64) and got == v, lambda: '%s: %s is %s expected %s' % (what, k, got, v))
        else:
            check(got is not None, lambda: '%s: %s is None' % (what, k))
            assert_close(got, v, '%s: %s' % (what, k), rtol=1e-8, atol=1e-8)

def gen_struct(tier):
    cells = list(co.CELLS)
    for ci, si, lat, crd, ei, ui in itertools.product(range(len(cells)), range(len(SYMS)), LAT, CRD, range(len(EXTRA)), range(len(UNITS))):
        yield [cells[ci], si, lat, crd, ei, ui]

@chk.group(gen_struct)
def structures(case, ctx):
    cn, si, lat, crd, ei, ui = case
    sy = SYMS[si]
    n = len(sy)
    cell = co.CELLS[cn]
    cc = co.CC[cn] if cn in co.CC else co.cell2cc(cell)
    units = UNITS[ui]
    U = dict(length=1.0, energy=1.0, stress=1.0, forces=1.0)
    U.update(units or {})
    frac = co.gen_frac(n, si)
    ecell, ecc = expect_lat(cell, cc, lat, U['length'])
    if lat == 'cc':
        gcell = co.cc2cell(cc)          # the orientation the library has to use
    else:
        gcell = cell
    cart = co.f2c(frac, gcell)
    kw = dict(symbols=list(sy))
    if lat in ('cell', 'both'):
        kw['cell'] = cell.copy()
    if lat in ('cc', 'both'):
        kw['cryst_const'] = np.array(cc, dtype=float)
    if crd in ('cart', 'both'):
        kw['coords'] = cart.copy()
    if crd in ('frac', 'both'):
        kw['coords_frac'] = frac.copy()
    stress = co.gen_arr((3, 3), 3)
    stress = stress + stress.T
    vals = dict(stress=stress, forces=co.gen_arr((n, 3), 4), etot=-12.25, pressure=0.75, volume=17.5)
    for k in EXTRA[ei]:
        v = vals[k]
        kw[k] = v.copy() if isinstance(v, np.ndarray) else v
    exp = dict(cell=ecell, cryst_const=ecc, coords=cart * U['length'], coords_frac=frac,
               volume=vals['volume'] if 'volume' in kw else co.volume(ecell),
               stress=stress * U['stress'] if 'stress' in kw else None,
               pressure=0.75 if 'pressure' in kw else (sum(stress[i, i] for i in range(3)) * U['stress'] / 3.0 if 'stress' in kw else None),
               forces=vals['forces'] * U['forces'] if 'forces' in kw else None,
               etot=-12.25 * U['energy'] if 'etot' in kw else None,
               mass=np.array([co.MASS[s] for s in sy]), mass_unique=np.array([co.MASS[s] for s in sorted(set(sy))]))
    exp.update(co.sym_attrs(sy))
    for lazy in (False, True):
        args = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in kw.items()}
        st = crys.Structure(units=None if units is None else dict(units), set_all_auto=not lazy, **args)
        if lazy:
            st.set_all()
        compare(st, exp, 'lazy' if lazy else 'eager')
        st.set_all()
        st.apply_units()
        compare(st, exp, 'set up twice')
        check(st.is_struct and not st.is_traj, 'kind')
        ctx.eval(2)
    # the environment objects describe the same atoms
    at = st.get_ase_atoms()
    assert_close(at.get_positions(), exp['coords'], 'ase positions', atol=1e-8)
    assert_close(np.array(at.get_cell()), exp['cell'], 'ase cell')
    check(at.get_chemical_symbols() == sy, 'ase symbols')
    back = crys.atoms2struct(at)
    check(back.symbols == sy, 'symbols from ase')
    assert_close(back.coords, exp['coords'], 'coords from ase', atol=1e-8)
    assert_close(back.cell, exp['cell'], 'cell from ase')
    sp = st.get_spglib()
    assert_close(sp[0], exp['cell'], 'spglib cell'); assert_close(sp[1], frac, 'spglib coords')
    check(list(sp[2]) == exp['znucl'], 'spglib Z')
    fa = st.get_fake_ase_atoms()
    assert_close(fa.get_scaled_positions(), frac, 'fake ase'); check(list(fa.get_atomic_numbers()) == exp['znucl'], 'fake ase Z')
    assert_close(fa.get_positions(), exp['coords'], 'fake ase positions', atol=1e-8); assert_close(fa.get_cell(), exp['cell'], 'fake ase cell')
    check(fa.get_number_of_atoms() == len(sy), 'fake ase natoms')

def gen_traj(tier):
    cells = ['ortho', 'tri', 'rottri'] if tier == 'quick' else list(co.CELLS)
    for cn in cells:
        for si in ((0, 1, 2) if cn == 'tri' else (1, 2)) if tier == 'quick' else range(4):
            for nstep in (1, 2, 3, 5):
                for lat in ('cell', 'cc', 'both'):
                    for latdim in ('fix', 'one', 'full', 'gen', 'shear', 'rot'):
                        for crd in CRD:
                            for ex in range(5):
                                for ui in range(4):
                                    yield [cn, si, nstep, lat, latdim, crd, ex, ui]

TEX = [(), ('timestep',), ('timestep', 'velocity', 'stress'), ('ekin', 'temperature', 'etot', 'forces', 'timestep'),
       ('stress', 'pressure', 'volume', 'forces', 'etot', 'velocity')]

@chk.group(gen_traj)
def trajectories(case, ctx):
    cn, si, nstep, lat, latdim, crd, ex, ui = case
    sy = SYMS[si]
    n = len(sy)
    base = co.CELLS[cn]
    if latdim in ('gen', 'scale', 'shear', 'rot', 'last'):
        cells = co.vcells(base, nstep, latdim)
    else:
        cells = np.array([base] * nstep)
    if lat == 'cc':
        cells = np.array([co.cc2cell(co.cell2cc(c)) for c in cells])
    ccs = np.array([co.cell2cc(c) for c in cells])
    units = UNITS[ui]
    U = dict(length=1.0, energy=1.0, stress=1.0, forces=1.0, velocity=1.0, time=1.0, temperature=1.0)
    U.update(units or {})
    frac = np.array([co.gen_frac(n, 10 * si + t) for t in range(nstep)])
    cart = np.array([co.f2c(frac[t], cells[t]) for t in range(nstep)])
    def form(a):
        return {'fix': a[0], 'one': a[:1]}.get(latdim, a).copy()
    kw = dict(symbols=list(sy))
    if lat in ('cell', 'both'):
        kw['cell'] = form(cells)
    if lat in ('cc', 'both'):
        kw['cryst_const'] = form(ccs)
    if crd in ('cart', 'both'):
        kw['coords'] = cart.copy()
    if crd in ('frac', 'both'):
        kw['coords_frac'] = frac.copy()
    stress = co.gen_arr((nstep, 3, 3), 3)
    vals = dict(stress=stress, forces=co.gen_arr((nstep, n, 3), 4), etot=co.gen_arr((nstep,), 5), pressure=co.gen_arr((nstep,), 6),
                volume=10 + co.gen_arr((nstep,), 7), velocity=co.gen_arr((nstep, n, 3), 8), timestep=0.5,
                ekin=2 + co.gen_arr((nstep,), 9), temperature=300 + co.gen_arr((nstep,), 10))
    for k in TEX[ex]:
        kw[k] = vals[k].copy() if isinstance(vals[k], np.ndarray) else vals[k]
    L = U['length']
    ecc = ccs.copy(); ecc[:, :3] *= L
    ecart = cart * L
    dt = 0.5 * U['time'] if 'timestep' in kw else None
    mass = np.array([co.MASS[s] for s in sy])
    vel = vals['velocity'] * U['velocity'] if 'velocity' in kw else (co.velocity(ecart, dt) if dt is not None and nstep > 2 else None)
    ek = vals['ekin'] * U['energy'] if 'ekin' in kw else (co.ekin(vel, mass) if vel is not None else None)
    te = vals['temperature'] * U['temperature'] if 'temperature' in kw else (co.temperature(ek, n) if ek is not None else None)
    exp = dict(cell=cells * L, cryst_const=ecc, coords=ecart, coords_frac=frac, nstep=nstep,
               volume=vals['volume'] if 'volume' in kw else np.array([co.volume(c * L) for c in cells]),
               stress=stress * U['stress'] if 'stress' in kw else None,
               pressure=vals['pressure'] if 'pressure' in kw else (np.array([sum(s[i, i] for i in range(3)) * U['stress'] / 3.0 for s in stress]) if 'stress' in kw else None),
               forces=vals['forces'] * U['forces'] if 'forces' in kw else None,
               etot=vals['etot'] * U['energy'] if 'etot' in kw else None,
               velocity=vel, ekin=ek, temperature=te, timestep=None if dt is None else np.float64(dt),
               time=None if dt is None else np.array([i * dt for i in range(nstep)]),
               mass=mass, mass_unique=np.array([co.MASS[s] for s in sorted(set(sy))]))
    exp.update(co.sym_attrs(sy))
    for lazy in (False, True):
        args = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in kw.items()}
        tr = crys.Trajectory(units=None if units is None else dict(units), set_all_auto=not lazy, **args)
        if lazy:
            tr.set_all()
        compare(tr, exp, 'lazy' if lazy else 'eager')
        tr.set_all()
        compare(tr, exp, 'set up twice')
        ctx.eval()
    # repeating one step gives the same crystal at every step
    st = tr[0]
    st.set_all()
    rep = st.get_traj(3)
    for k in ('cell', 'coords', 'coords_frac', 'cryst_const', 'volume', 'pressure', 'etot', 'forces', 'stress'):
        if exp[k] is not None:
            assert_close(getattr(rep, k), np.array([exp[k][0]] * 3), 'repeated %s' % k, atol=1e-8)
    check(rep.nstep == 3 and rep.symbols == sy, 'repeated trajectory')

def gen_min(tier):
    names = ['cell', 'coords', 'coords_frac', 'cryst_const', 'symbols']
    for k in range(1, 6):
        for c in itertools.combinations(names, k):
            for kind in ('s', 't'):
                yield [kind, list(c)]

@chk.group(gen_min)
def partial_input(case, ctx):
    """what cannot be derived is missing, nothing fails, the rest is right"""
    kind, names = case
    if len(names) < 3:
        ctx.trivial()
    sy = ['O', 'H', 'H']
    cell = co.CELLS['tri']
    ns = 4
    frac = np.array([co.gen_frac(3, t) for t in range(ns)])
    cart = np.array([co.f2c(f, cell) for f in frac])
    full = dict(cell=np.array([cell] * ns), coords=cart, coords_frac=frac, cryst_const=np.array([co.CC['tri']] * ns, dtype=float))
    kw = {k: (full[k] if kind == 't' else full[k][0]) for k in names if k in full}
    if 'symbols' in names:
        kw['symbols'] = sy
    obj = (crys.Trajectory if kind == 't' else crys.Structure)(**kw)
    lat = 'cell' in names or 'cryst_const' in names
    crd = 'coords' in names or 'coords_frac' in names
    one = (lambda a: a) if kind == 't' else (lambda a: a[0])
    exp = {}
    # a lattice without coordinates has no number of steps: given as is
    exp['cell'] = one(full['cell']) if lat else None
    exp['cryst_const'] = one(full['cryst_const']) if lat else None
    exp['volume'] = (np.array([co.volume(cell)] * ns) if kind == 't' else co.volume(cell)) if lat else None
    exp['coords'] = one(cart) if 'coords' in names or ('coords_frac' in names and lat) else None
    exp['coords_frac'] = one(frac) if 'coords_frac' in names or ('coords' in names and lat) else None
    exp['natoms'] = 3 if crd or 'symbols' in names else None
    for k in ('stress', 'forces', 'etot', 'pressure'):
        exp[k] = None
    s = co.sym_attrs(sy)
    for k in s:
        if k != 'natoms':
            exp[k] = s[k] if 'symbols' in names else None
    exp['mass'] = np.array([co.MASS[x] for x in sy]) if 'symbols' in names else None
    if kind == 't':
        exp['nstep'] = ns if crd else None
        exp['timestep'] = exp['time'] = exp['velocity'] = exp['ekin'] = exp['temperature'] = None
    if kind == 't' and lat and not crd:
        return ctx.trivial()
    compare(obj, exp, str(names))

@chk.group(lambda tier: [['s', 'bogus'], ['s', 'mass'], ['t', 'nstep'], ['u', 'len'], ['t2', 'coords'], ['t2', 'forces']])
def refused(case, ctx):
    kind, name = case
    a = co.gen_frac(2)
    if kind == 'u':
        check(raises(lambda: crys.Structure(coords_frac=a, cell=co.CELLS['tri'], symbols=['H', 'O'], units={name: 2.0})) is not None, 'unknown unit accepted')
    elif kind == 't2':
        check(raises(lambda: crys.Trajectory(symbols=['H', 'O'], **{name: a}), AssertionError) is not None, '2d input accepted')
    else:
        cls = crys.Structure if kind == 's' else crys.Trajectory
        check(raises(lambda: cls(symbols=['H', 'O'], **{name: a}), AssertionError) is not None, 'unknown input accepted')
