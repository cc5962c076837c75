"""Synthetic outputs of PWscf, CPMD, CP2K and LAMMPS.

Every function writes the files of one run into a directory and returns
(parser class name, file name, raw, opt): `raw` maps each attribute to the value
printed in the files in the units of the program (None: not in the files), with
numbers rounded exactly as printed."""
import os, struct
import numpy as np
import co

ANG_BOHR = 1 / 0.529177210
SYM = ['Al', 'N', 'Si', 'H', 'O']

class Fmt:
    """format numbers; remember the values as printed"""
    def __init__(self, fmt):
        self.fmt = fmt
    def __call__(self, a):
        a = np.asarray(a, float)
        s = np.empty(a.shape, object)
        v = np.empty(a.shape)
        for i in np.ndindex(*a.shape):
            s[i] = self.fmt % a[i]
            v[i] = float(s[i])
        return s, v

def vals(shape, seed, lo=-1.0, hi=1.0):
    return co.gen_arr(shape, seed, lo, hi)

def cellval(seed, scale=1.0):
    return (np.diag([1.0, 1.1, 1.3]) + 0.1 * vals((3, 3), seed)) * scale

def syms(nat, k=0):
    return [SYM[(i * (2 + k) + k) % 5] for i in range(nat)]

# --- PWscf -----------------------------------------------------------------
KEYS = {'a_0': ('lattice parameter (a_0)  ', 'units of a_0', '(a_0 units)'),
        'alat': ('lattice parameter (alat) ', 'units of alat', 'positions (alat units)')}

def pw_header(c, w, raw, tag='alat'):
    nat, miss = c['nat'], c['miss']
    sy = syms(nat, c.get('sy', 0))
    w('     Program PWSCF v.5.0 starts ...')
    w('')
    a, alat = Fmt('%9.4f')(c.get('alat', 10.2626))
    if 'alat' not in miss:
        w('     bravais-lattice index     =            0')
        w('     %s = %s  a.u.' % (KEYS[tag][0], a))
    w('     unit-cell volume          =     270.2141 (a.u.)^3')
    if 'natoms' not in miss:
        w('     number of atoms/cell      = %12i' % nat)
    w('     number of atomic types    = %12i' % len(set(sy)))
    w('     kinetic-energy cutoff     =      25.0000  Ry')
    w('     convergence threshold     =      1.0E-08')
    s, cell = Fmt('%9.6f')(cellval(c.get('cs', 1)))
    w('     celldm(1)=  10.262600  celldm(2)=   0.000000  celldm(3)=   0.000000')
    if 'cell' not in miss:
        w('     crystal axes: (cart. coord. in %s)' % KEYS[tag][1])
        for i in range(3):
            w('               a(%i) = ( %s %s %s )  ' % ((i + 1,) + tuple(s[i])))
        w('')
    w('     reciprocal axes: (cart. coord. in units 2 pi/a_0)')
    for i in range(3):
        w('               b(%i) = ( -1.000000 -1.000000  1.000000 )  ' % (i + 1))
    w('')
    s, crd = Fmt('%11.7f')(vals((nat, 3), c.get('hs', 2), -1.5, 1.5))
    if 'coords' not in miss:
        w('     Cartesian axes')
        w('')
        w('     site n.     atom                  positions (%s units)' % ('a_0' if tag == 'a_0' else 'alat'))
        for i in range(nat):
            w('     %5i        %4s   tau(%3i) = ( %s %s %s  )' % ((i + 1, sy[i], i + 1) + tuple(s[i])))
        w('')
        if c.get('verb'):
            w('     Crystallographic axes')
            w('')
            w('     site n.     atom                  positions (cryst. coord.)')
            for i in range(nat):
                w('     %5i        %4s   tau(%3i) = ( %s %s %s  )' % ((i + 1, sy[i], i + 1) + tuple(s[i][::-1])))
            w('')
    if 'nk' not in miss:
        w('     number of k points=%5i' % c.get('nk', 3))
        w('                       cart. coord. in units 2pi/a_0')
    al = alat if c.get('use_alat', True) else 1.0
    noal = c.get('use_alat', True) and 'alat' in miss
    raw['natoms'] = None if 'natoms' in miss else nat
    raw['nkpoints'] = None if 'nk' in miss else c.get('nk', 3)
    nc = 'coords' in miss or 'natoms' in miss
    raw['_start_coords'] = None if nc or noal else crd * al
    raw['symbols'] = None if nc else sy
    raw['_start_cell'] = None if 'cell' in miss or noal else cell * al
    raw['_alat'] = None if noal else float(al)
    return sy

def pw_again(c, w, tag):
    """a second run appended to the file which stopped after its header; only
    for files with complete first header"""
    if c.get('again') and not set(c['miss']) & {'coords', 'cell', 'alat', 'natoms', 'nk'}:
        pw_header(dict(c, cs=c.get('cs', 1) + 3, hs=c.get('hs', 2) + 3, alat=11.125, nk=17, sy=c.get('sy', 0) + 1), w, {}, tag)
        w('     Starting temperature  =   555.00 K')
        w('     Time step             =   999.25 a.u.,  9.2567 femto-seconds')

BLOCKS = ['The non-local contrib.  to forces', 'The ionic contribution  to forces', 'The local contribution  to forces']

def pw_scfblock(c, w, t, miss, out):
    """one scf block; appends to the lists in out"""
    nat = c['nat']
    w('     Self-consistent Calculation')
    w('')
    w('     iteration #  1     ecut=    25.00 Ry     beta=0.70')
    w('     total energy              =     -19.11111111 Ry')
    w('     End of self-consistent calculation')
    s, v = Fmt('%16.8f')(vals((), 100 + t, -900, -10))
    if 'etot' not in miss:
        w('!    total energy              = %s Ry' % s)
        out['etot'].append(float(v))
    w('     Harris-Foulkes estimate   =     -19.00539054 Ry')
    w('')
    if 'conv' not in miss:
        w('     convergence has been achieved in %3i iterations' % (5 + t))
        out['nstep_scf'].append(5 + t)
    else:
        w('     convergence NOT achieved after 100 iterations: stopping')
    if 'forces' not in miss:
        w('')
        w('     Forces acting on atoms (Ry/au):')
        w('')
        fall = []
        for b in range(1 + c.get('extra', 0)):
            if b:
                w('     ' + BLOCKS[b - 1])
            s, v = Fmt('%13.8f')(vals((nat, 3), 200 + 10 * t + b, -2, 2))
            for i in range(nat):
                w('     atom %4i type %2i   force = %s %s %s' % ((i + 1, 1) + tuple(s[i])))
            fall.append(v)
        w('')
        w('     Total force =     0.005105     Total SCF correction =     0.000000')
        out['forces'].append(np.concatenate(fall))
    if 'stress' not in miss:
        s1, _ = Fmt('%13.8f')(vals((3, 3), 300 + t))
        s2, v = Fmt('%9.2f')(vals((3, 3), 400 + t, -800, 800))
        w('')
        w('     entering subroutine stress ...')
        w('')
        w('          total   stress  (Ry/bohr**3)                   (kbar)     P=%8.2f' % (np.trace(v) / 3))
        for i in range(3):
            w(' %s %s %s     %s  %s  %s' % (tuple(s1[i]) + tuple(s2[i])))
        out['stress'].append(v)
    w('')
    w('')

def pw_scf(d, c):
    """c: nat, miss, extra, use_alat, nscf, tag"""
    lines, raw = [], {}
    w = lines.append
    pw_header(c, w, raw, c.get('tag', 'a_0'))
    out = dict(etot=[], nstep_scf=[], forces=[], stress=[])
    for t in range(c.get('nscf', 1)):
        pw_scfblock(c, w, t, c['miss'], out)
    pw_again(c, w, c.get('tag', 'a_0'))
    w('     PWSCF        :     2.21s CPU')
    fn = os.path.join(d, 'pw.out')
    open(fn, 'w').write('\n'.join(lines) + '\n')
    raw['coords'], raw['cell'] = raw.pop('_start_coords'), raw.pop('_start_cell')
    raw.pop('_alat')
    for k in ('etot', 'nstep_scf', 'stress'):
        raw[k] = out[k][0] if out[k] else None
    raw['forces'] = out['forces'][0][:c['nat']] if out['forces'] and raw['natoms'] else None
    raw['scf_converged'] = bool(out['nstep_scf'])
    return 'PwSCFOutputFile', fn, raw, dict(use_alat=c.get('use_alat', True))

PW_ATT = ['coords', 'coords_frac', 'symbols', 'stress', 'etot', 'ekin', 'temperature', 'forces', 'nstep_scf', 'cell', 'natoms', 'nkpoints', 'timestep']

def pw_md(d, c):
    """c: nat, ns, miss, extra, first (initial scf run present), cunit, lunit
    (None: no CELL_PARAMETERS), ifpos, start_T, vcmd, last (scf run of the last
    step present)"""
    lines, raw = [], {}
    w = lines.append
    nat, miss, ua = c['nat'], c['miss'], c.get('use_alat', True)
    sy = pw_header(c, w, raw, c.get('tag', 'alat'))
    alat = raw.pop('_alat')
    if c.get('start_T'):
        w('     Starting temperature  =   300.00 K')
        w('')
        w('     temperature is controlled by velocity rescaling (rescaling)')
    out = dict(etot=[], nstep_scf=[], forces=[], stress=[])
    crds, cells, ekin, temp, econst = [], [], [], [], []
    for k in range(int(c.get('first', True))):
        pw_scfblock(c, w, 90 * k, miss, out)
    s, dt = Fmt('%8.2f')(120.25)
    if 'timestep' not in miss:
        w('     Time step             = %s a.u.,  7.2567 femto-seconds' % s)
    for t in range(c['ns']):
        w('     Entering Dynamics:    iteration = %5i' % (t + 1))
        w('                           time      =   0.0073 pico-seconds')
        w('')
        lu = c.get('lunit')
        if lu is not None:
            s, v = Fmt('%15.9f')(cellval(20 + t, 1.0 if 'alat' in lu or lu == '' else 9.0))
            fac = 1.0
            if lu in ('(alat= X)', '(alat= Y)', '(alat=Z)'):
                x = Fmt('%11.8f')((109.5 if lu == '(alat=Z)' else 9.5) + (0.25 * t if lu != '(alat= X)' else 0))
                w('CELL_PARAMETERS (alat=%s%s)' % ('' if lu == '(alat=Z)' else ' ', x[0].item().strip()))
                fac = float(x[1]) if ua else (1.0 if alat is not None else None)
            else:
                w(('CELL_PARAMETERS ' + lu).rstrip())
                if 'angstrom' in lu:
                    fac = ANG_BOHR
                elif 'bohr' not in lu:
                    fac = alat
            for i in range(3):
                w('%s %s %s' % tuple(s[i]))
            w('')
            cells.append(None if fac is None else v * fac)
        if 'coordsmd' not in miss:
            s, v = Fmt('%14.9f')(vals((nat, 3), 40 + t, -2, 2))
            w(('ATOMIC_POSITIONS ' + c['cunit']).rstrip())
            for i in range(nat):
                w('%-4s %s %s %s' % ((sy[i],) + tuple(s[i])) + ('   0   1   0' if c.get('ifpos') and i % 2 == 0 else ''))
            w('')
            crds.append(v)
        if c.get('vcmd'):
            (e, ev), (T, Tv), (q, qv) = Fmt('%14.8f')(vals((), 50 + t, 0, 1)), Fmt('%7.1f')(vals((), 60 + t, 100, 900)), Fmt('%14.8f')(vals((), 70 + t, -99, -10))
            if 'ekin' not in miss:
                w('     Ekin = %s Ry     T = %s K  Etot = %s' % (e, T, q))
                ekin.append(float(ev)), temp.append(float(Tv)), econst.append(float(qv))
        elif 'ekin' not in miss:
            (e, ev), (T, Tv) = Fmt('%14.8f')(vals((), 50 + t, 0, 1)), Fmt('%14.8f')(vals((), 60 + t, 100, 900))
            w('     kinetic energy (Ekin) = %s Ry' % e)
            w('     temperature           = %s K ' % T)
            w('     Ekin + Etot (const)   =   -19.0 Ry'.replace('Etot', 'E_tot'))
            ekin.append(float(ev)), temp.append(float(Tv))
        if t < c['ns'] - 1 or c.get('last', True):
            pw_scfblock(c, w, t + 1, miss, out)
    if 'timestep' not in miss:
        pw_again(c, w, c.get('tag', 'alat'))
    w('     The maximum number of steps has been reached.')
    fn = os.path.join(d, 'pw.out')
    open(fn, 'w').write('\n'.join(lines) + '\n')
    r = dict((k, None) for k in PW_ATT)
    r['symbols'], r['natoms'], r['nkpoints'] = raw['symbols'], raw['natoms'], raw['nkpoints']
    r['timestep'] = None if 'timestep' in miss else float(dt)
    if crds and raw['natoms']:
        v = np.array(crds)
        u = c['cunit'].strip('(){}')
        if u == 'crystal':
            r['coords_frac'] = v
        elif alat is not None:
            r['coords'] = v * {'': 1.0, 'bohr': 1.0, 'alat': alat, 'angstrom': ANG_BOHR}[u]
    if cells:
        r['cell'] = None if cells[0] is None else np.array(cells)
    else:
        r['cell'] = raw['_start_cell']
    r['ekin'], r['temperature'] = np.array(ekin) if ekin else None, np.array(temp) if temp else None
    if c.get('vcmd'):
        r['econst'] = np.array(econst) if econst else None
    # the initial scf run is not a step of the trajectory
    for k in ('etot', 'stress', 'forces'):
        v = np.array(out[k]) if out[k] else None
        if v is not None and (not crds or not raw['natoms']):
            v = None
        if v is not None and len(v) > c['ns']:
            v = v[-c['ns']:]
        if k == 'forces' and v is not None:
            v = v[:, :nat]
        r[k] = v
    r['nstep_scf'] = np.array(out['nstep_scf']) if out['nstep_scf'] else None
    return ('PwVCMDOutputFile' if c.get('vcmd') else 'PwMDOutputFile'), fn, r, dict(use_alat=ua)

# --- CPMD ------------------------------------------------------------------
def cpmd_geometry(d, c, sy, miss):
    nat = c['nat']
    s, cell = Fmt('%17.12f')(cellval(7, 9.0))
    f, frac = Fmt('%17.12f')(vals((nat, 3), 8, -0.5, 1.2))
    if 'scale' not in miss:
        with open(os.path.join(d, 'GEOMETRY.scale'), 'w') as fd:
            fd.write('CELL MATRIX (BOHR)\n')
            for i in range(3):
                fd.write('  %s  %s  %s\n' % tuple(s[i]))
            fd.write('\nCELL MATRIX (ANGSTROM)\n')
            for i in range(3):
                fd.write('  %s  %s  %s\n' % tuple(Fmt('%17.12f')(cell[i] * 0.529)[0]))
            fd.write('\nSCALED ATOMIC COORDINATES\n')
            for i in range(nat):
                fd.write('  %s  %s  %s  %9s %6i\n' % (tuple(f[i]) + (sy[i], i + 1)))
    if 'geometry' not in miss:
        with open(os.path.join(d, 'GEOMETRY'), 'w') as fd:
            for i in range(nat):
                fd.write('  %s  %s  %s       %s  %s  %s\n' % (tuple(Fmt('%17.12f')(vals((3,), 9 + i, -9, 9))[0]) + tuple(Fmt('%17.12f')(vals((3,), 19 + i))[0])))
            if c.get('geoextra'):
                for i in range(3):
                    fd.write('  %s  %s  %s\n' % tuple(s[i]))
    return cell, frac

def cpmd_scf(d, c):
    nat, miss = c['nat'], c['miss']
    sy = syms(nat, c.get('sy', 0))
    cell, frac = cpmd_geometry(d, c, sy, miss)
    L = []
    w = L.append
    w(' PROGRAM CPMD STARTED AT: Tue Aug 23 13:56:29 2011  ')
    w(' TIME STEP FOR ELECTRONS:                                  5.0000')
    w(' TIME STEP FOR IONS:                                       5.0000')
    if 'nk' not in miss:
        w(' NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES): %9i' % 2)
        w('    NKP      KX             KY             KZ            WEIGHT')
    crd = Fmt('%7.4f')(vals((nat, 3), 31, -9, 9))[0]
    def grad(v):
        w('   ATOM          COORDINATES            GRADIENTS (-FORCES)')
        for i in range(nat):
            w(' %3i %2s %s %s %s  %s %s %s' % ((i + 1, sy[i]) + tuple(crd[i]) + tuple(v[i])))
        w('')
    f, fv = Fmt('%10.3E')(vals((nat, 3), 33))
    if 'forces' not in miss:
        grad(Fmt('%10.3E')(np.zeros((nat, 3)))[0])
    w(' (K+E1+L+N+X)           TOTAL ENERGY =         -187.33341438 A.U.') if 'etot' not in miss else None
    w(' (K)                  KINETIC ENERGY =            7.97763674 A.U.')
    w('')
    w('  25  1.254E-07   1.393E-09    -192.769552   -8.242E-13      2.14')
    ns = '%3i  8.537E-08   8.887E-10    -192.769552   -1.023E-12      2.12' % c.get('nscf', 26)
    w(' ' + ns)
    w('')
    if 'restart' not in miss:
        w(' RESTART INFORMATION WRITTEN ON FILE /local/scratch/RESTART.1')
    if 'conv' in miss:
        w(' CALCULATION STOPPED, BUT NO CONVERGENCE')
    if 'forces' not in miss:
        grad(f)
    e, ev = Fmt('%20.8f')(vals((), 35, -200, -10))
    if 'etot' not in miss:
        w(' (K+E1+L+N+X)           TOTAL ENERGY = %s A.U.' % e)
    w(' (K)                  KINETIC ENERGY =            8.70567076 A.U.')
    s, sv = Fmt('%19.8E')(vals((3, 3), 37, -90, 90))
    if 'stress' not in miss and c.get('two'):
        w('')
        w(' TOTAL STRESS TENSOR (kBar):')
        for i in range(3):
            w(' %s %s %s' % tuple(s[i][::-1]))
        w('')
    if 'stress' not in miss:
        w('')
        w(' TOTAL STRESS TENSOR (kBar):')
        for i in range(3):
            w(' %s %s %s' % tuple(s[i]))
    w('')
    fn = os.path.join(d, 'cpmd.out')
    open(fn, 'w').write('\n'.join(L) + '\n')
    ng = 'geometry' in miss
    raw = dict(cell=None if 'scale' in miss else cell, stress=None if 'stress' in miss else sv,
               etot=None if 'etot' in miss else float(ev), coords_frac=None if 'scale' in miss else frac,
               symbols=None if 'scale' in miss else sy, forces=None if 'forces' in miss or ng else fv,
               natoms=None if ng else nat, nkpoints=None if 'nk' in miss else 2,
               nstep_scf=None if 'restart' in miss else c.get('nscf', 26), scf_converged='conv' not in miss)
    return 'CpmdSCFOutputFile', fn, raw, {}

def cpmd_md(d, c):
    """c: nat, ns, ncol (ENERGIES), cellfile, stress, ftraj, traj, newdata, miss"""
    nat, ns, miss = c['nat'], c['ns'], c['miss']
    sy = syms(nat, c.get('sy', 0))
    cell, frac = cpmd_geometry(d, c, sy, miss)
    raw = dict.fromkeys('cell coords econst ekin ekin_cell ekin_elec etot forces natoms stress symbols temperature temperature_cell timestep velocity'.split())
    raw['natoms'], raw['symbols'], raw['cell'] = nat, sy, cell
    with open(os.path.join(d, 'cpmd.out'), 'w') as fd:
        fd.write(' PROGRAM CPMD STARTED AT: Tue Aug 23 13:56:29 2011  \n TIME STEP FOR ELECTRONS:                                  2.0000\n')
        if 'timestep' not in miss:
            fd.write(' TIME STEP FOR IONS:                                       3.5000\n')
            raw['timestep'] = 3.5
    names = {9: 'nfi ekinc ekinh tempp eks eclassic eham dis tcpu', 8: 'nfi ekinc tempp eks eclassic eham dis tcpu', 6: 'nfi tempp eks eclassic dis tcpu'}
    if 'energies' not in miss:
        nm = names[c['ncol']].split()
        v = {}
        rows = [[] for _ in range(ns)]
        for j, n in enumerate(nm):
            s, v[n] = Fmt({'nfi': '%10.0f', 'tempp': '%9.3f', 'dis': '%14.6E', 'tcpu': '%8.2f'}.get(n, '%18.10f'))(
                np.arange(1, ns + 1) if n == 'nfi' else vals((ns,), 60 + j, *dict(tempp=(100, 900), eks=(-50, -20)).get(n, (0, 2))))
            for t in range(ns):
                rows[t].append(s[t])
        open(os.path.join(d, 'ENERGIES'), 'w').write('\n'.join(' '.join(r) for r in rows) + '\n')
        raw.update(ekin=v['eclassic'], etot=v['eks'], temperature=v['tempp'], econst=v['eham'] if 'eham' in v else v['eks'],
                   ekin_elec=v.get('ekinc'), ekin_cell=v.get('ekinh'))
        if 'ekinh' in v:
            raw['temperature_cell'] = v['ekinh'] * 2 / 9. / 3.16681534e-6
    if c.get('cellfile'):
        s, v = Fmt('%15.6f')(np.array([cellval(70 + t, 9.0) for t in range(ns)]))
        with open(os.path.join(d, 'CELL'), 'w') as fd:
            for t in range(ns):
                fd.write('   CELL PARAMETERS at Step: %11i\n' % (t + 1))
                for i in range(3):
                    fd.write('%s %s %s       -0.000269    -0.000012    -0.000004\n' % tuple(s[t, i]))
        raw['cell'] = v
    if c.get('stress'):
        s, v = Fmt('%20.8f')(vals((ns, 3, 3), 80, -90, 90))
        with open(os.path.join(d, 'STRESS'), 'w') as fd:
            for t in range(ns):
                fd.write('   TOTAL STRESS TENSOR (kB): Step: %11i\n' % (t + 1))
                for i in range(3):
                    fd.write(' %s %s %s\n' % tuple(s[t, i]))
        raw['stress'] = v
    x, xv = Fmt('%23.14f')(vals((ns, nat, 9), 90, -9, 9))
    for name, on, nc in (('TRAJECTORY', c.get('traj', True), 6), ('FTRAJECTORY', c.get('ftraj'), 9)):
        if not on:
            continue
        with open(os.path.join(d, name), 'w') as fd:
            for t in range(ns):
                if c.get('newdata') and t == ns // 2:
                    fd.write('  <<<<<<  NEW DATA  >>>>>>\n')
                for i in range(nat):
                    fd.write('%7i %s\n' % (t + 1, ' '.join(x[t, i, :nc])))
        raw['coords'], raw['velocity'] = xv[..., :3], xv[..., 3:6]
        raw['forces'] = xv[..., 6:] if nc == 9 else None
    return 'CpmdMDOutputFile', os.path.join(d, 'cpmd.out'), raw, {}

# --- CP2K ------------------------------------------------------------------
def cp2k_forces(w, sy, s):
    w('')
    w(' ATOMIC FORCES in [a.u.]')
    w('')
    w(' # Atom   Kind   Element          X              Y              Z')
    for i, y in enumerate(sy):
        w(' %6i %6i      %-2s   %s %s %s' % ((i + 1, 1, y) + tuple(s[i])))
    w(' SUM OF ATOMIC FORCES           0.00000004    -0.00000003    -0.08356382     0.08356382')
    w('')

def cp2k_head(w, run, nat, miss):
    w(' GLOBAL| Force Environment number                                              1')
    w(' GLOBAL| Run type %62s' % run)
    w(' GLOBAL| Global print level                                                  LOW')
    if run == 'MD':
        w(' MD| Number of Time Steps %55i' % 10)
        if 'timestep' not in miss:
            w(' MD| Time Step [fs] %61.2f' % 2.5)
    if 'natoms' not in miss and run == 'MD':
        w(' TOTAL NUMBERS AND MAXIMUM NUMBERS')
        w('                             - Atomic kinds:                                   2')
        w('                             - Atoms: %41i' % nat)
        w('                                                      Number of atoms: %9i' % nat)

def cp2k_scf(d, c):
    nat, miss = c['nat'], c['miss']
    sy = syms(nat, c.get('sy', 0))
    L = []
    w = L.append
    cp2k_head(w, 'ENERGY_FORCE', nat, miss)
    e, ev = Fmt('%24.15f')(vals((), 1, -90, -10))
    f, fv = Fmt('%14.8f')(vals((nat, 3), 2))
    s, sv = Fmt('%15.8f')(vals((3, 3), 3, -90, 90))
    if 'etot' not in miss:
        w(' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.): %s' % e)
    if 'forces' not in miss:
        cp2k_forces(w, sy, f)
    if 'stress' not in miss:
        w(' STRESS TENSOR [GPa]')
        w('')
        w('            X               Y               Z')
        for i in range(3):
            w('  %s %s %s %s' % (('XYZ'[i],) + tuple(s[i])))
        w('')
        w('  1/3 Trace(stress tensor):   5.90391415E+01')
        w('')
        w(' EIGENVECTORS AND EIGENVALUES OF THE STRESS TENSOR')
        w('')
        w('         29.89435818     73.27630797     73.94675849')
    w(' -----------------')
    fn = os.path.join(d, 'cp2k.out')
    open(fn, 'w').write('\n'.join(L) + '\n')
    nf = 'forces' in miss
    return 'Cp2kSCFOutputFile', fn, dict(natoms=None if nf else nat, etot=None if 'etot' in miss else float(ev),
        forces=None if nf else fv, stress=None if 'stress' in miss else sv, symbols=None if nf else sy), {}

CP2K_MD = 'cell coords econst ekin etot forces natoms stress symbols temperature timestep velocity'.split()

def cp2k_xyz(d, name, sy, s, E, relax=False):
    with open(os.path.join(d, name), 'w') as fd:
        for t in range(len(s)):
            fd.write('%8i\n' % len(sy))
            fd.write(' i = %8i, %sE = %s\n' % (t, '' if relax else 'time = %12.3f, ' % (t * 2.5), E[t]))
            for i, y in enumerate(sy):
                fd.write(' %2s %s %s %s\n' % ((y,) + tuple(s[t, i])))

def cp2k_grid(d, name, what, vv, fmt, extra=False):
    s, v = Fmt(fmt)(vv)
    with open(os.path.join(d, name), 'w') as fd:
        fd.write('#   Step   Time [fs]       ' + ' '.join('%s%s [%s]' % (a, b, what) for a in 'xyz' for b in 'xyz') + '\n')
        for t in range(len(s)):
            fd.write('%8i %11.3f %s' % (t, t * 2.5, ' '.join(s[t].flat)))
            fd.write(' %24.10f\n' % abs(np.linalg.det(vv[t])) if extra else '\n')
    return v

def cp2k_md(d, c):
    """c: nat, ns, miss, dcd, relax (None, 'CELL_OPT', 'GEO_OPT')"""
    nat, ns, miss = c['nat'], c['ns'], c['miss']
    relax, use_dcd = c.get('relax'), c.get('dcd')
    sy = syms(nat, c.get('sy', 0))
    raw = dict.fromkeys(CP2K_MD)
    L = []
    w = L.append
    cp2k_head(w, relax or 'MD', nat, miss)
    nall = ns + 1 if relax == 'CELL_OPT' else ns
    E, Ev = Fmt('%20.10f')(vals((nall,), 1, -90, -10))
    f, fv = Fmt('%20.10f')(vals((nall, nat, 3), 2))
    fo, fov = Fmt('%14.8f')(vals((nall, nat, 3), 3))
    x, xv = Fmt('%20.10f')(vals((nall, nat, 3), 4, -20, 20))
    u, uv = Fmt('%20.10f')(vals((nall, nat, 3), 5))
    for t in range(nall):
        w(' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.): %s' % E[t])
        if 'outforces' not in miss:
            cp2k_forces(w, sy, fo[t])
        w(' *******')
    fn = os.path.join(d, 'cp2k.out')
    open(fn, 'w').write('\n'.join(L) + '\n')
    files = 0
    if use_dcd:
        if 'pos' not in miss:
            xv = xv.astype(np.float32)
            ln, an = vals((ns, 3), 6, 3, 20), vals((ns, 3), 7, 60, 120)
            open(os.path.join(d, 'PROJECT-pos-1.dcd'), 'wb').write(dcd_bytes(xv, ln, an, 0, 2.5))
            raw['coords'], raw['cryst_const'], raw['natoms'] = xv, np.concatenate((ln, an), 1), nat
        else:
            raw['cryst_const'] = None
        raw.pop('cell')
    elif 'pos' not in miss:
        cp2k_xyz(d, 'PROJECT-pos-1.xyz', sy, x, E, bool(relax))
        raw['coords'] = xv
        files += 1
    if not use_dcd:
        if relax:
            raw['natoms'] = nat if 'pos' not in miss else None
        else:
            raw['natoms'] = None if 'natoms' in miss else nat
    if 'frc' not in miss:
        cp2k_xyz(d, 'PROJECT-frc-1.xyz', sy, f, E, bool(relax))
        raw['forces'] = fv
        files += 1
    elif 'outforces' not in miss and raw['natoms']:
        raw['forces'] = fov
    if 'vel' not in miss and not relax:
        cp2k_xyz(d, 'PROJECT-vel-1.xyz', sy, u, E)
        raw['velocity'] = uv
        files += 1
    raw['symbols'] = sy if files and raw['natoms'] else None
    raw['timestep'] = None if 'timestep' in miss or relax else 2.5
    if 'cellfile' not in miss:
        v = cp2k_grid(d, 'PROJECT-1.cell', 'Angstrom', np.array([cellval(10 + t, 5.0) for t in range(ns)]), '%19.10f', extra=True)
        if not use_dcd:
            raw['cell'] = np.concatenate((v, v[-1:])) if relax == 'CELL_OPT' else v
            if relax == 'CELL_OPT' and raw['coords'] is None:
                raw['cell'] = None
    if 'stress' not in miss:
        raw['stress'] = cp2k_grid(d, 'PROJECT-1.stress', 'bar', vals((nall, 3, 3), 8, -9e4, 9e4), '%24.10f')
    if relax:
        raw['etot'] = Ev if 'pos' not in miss else None
    elif 'ener' not in miss:
        cols = [Fmt('%20.9f')(vals((ns,), 20 + j, *r)) for j, r in enumerate([(0, 1), (100, 900), (-50, -20), (-50, -20), (0, 5)])]
        with open(os.path.join(d, 'PROJECT-1.ener'), 'w') as fd:
            fd.write('#     Step Nr.          Time[fs]        Kin.[a.u.]          Temp[K]            Pot.[a.u.]        Cons Qty[a.u.]        UsedTime[s]\n')
            for t in range(ns):
                fd.write('%10i %19.6f %s\n' % (t, t * 2.5, ' '.join(q[0][t] for q in cols)))
        raw['ekin'], raw['temperature'], raw['etot'], raw['econst'] = [q[1] for q in cols[:4]]
    cls = 'Cp2kDcdMDOutputFile' if use_dcd else ('Cp2kRelaxOutputFile' if relax else 'Cp2kMDOutputFile')
    return cls, fn, raw, {}

# --- dcd -------------------------------------------------------------------
def dcd_bytes(crd, ln, raw_an, nset, dt):
    r = lambda b: struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))
    crd = np.asarray(crd, '<f4')
    h = b'CORD' + struct.pack('<9i', nset, 0, 1, 0, 0, 0, 0, 0, 0) + struct.pack('<f', dt) + struct.pack('<10i', 1, 0, 0, 0, 0, 0, 0, 0, 0, 24)
    b = r(h) + r(struct.pack('<i', 2) + b'REMARK a'.ljust(80) + b'REMARK b'.ljust(80)) + r(struct.pack('<i', crd.shape[1]))
    for t in range(len(crd)):
        b += r(struct.pack('<6d', ln[t, 0], raw_an[t, 2], ln[t, 1], raw_an[t, 1], raw_an[t, 0], ln[t, 2]))
        for i in range(3):
            b += r(crd[t, :, i].tobytes())
    return b

# --- LAMMPS ----------------------------------------------------------------
THERMO = 'Step Temp Volume Cella Cellb Cellc CellAlpha CellBeta CellGamma KinEng PotEng TotEng Press Pxx Pyy Pzz Pxy Pxz Pyz'.split()
LMP = 'cell coords_frac coords cryst_const ekin etot forces natoms stress symbols temperature timestep velocity volume'.split()

def lammps(d, c):
    """c: nat, ns, thermo (columns, or None), dump (columns, or None), box
    ('ortho', 'tri', 'orthotilt'), runs, symbols ('file', 'element', 'order',
    None), dcd, miss"""
    nat, ns, miss = c['nat'], c['ns'], c['miss']
    raw = dict.fromkeys(LMP)
    types = [1 + (i * 2 + 1) % 3 if c.get('ntyp', 3) == 3 else 1 for i in range(nat)]
    el = list(c.get('el', ['Al', 'N', 'Si']))
    sy = [el[t - 1] for t in types]
    L = []
    w = L.append
    w('LAMMPS (1 Feb 2014)')
    w('units metal')
    w('boundary p p p')
    if c.get('dump') is not None:
        w('dump dump_txt all custom 1 lmp.out.dump ' + ' '.join(c['dump']))
    w('dump_modify dump_txt sort id')
    if c.get('symbols') == 'element':
        w('dump dump_xyz all xyz 1 lmp.out.xyz')
        w('dump_modify dump_xyz element ' + ' '.join(el))
    w('thermo_style custom step temp vol cella')
    w('thermo 1')
    if 'timestep' not in miss:
        w('timestep 0.75e-3')
        raw['timestep'] = 0.75e-3
    runs = c.get('runs', 1)
    th = {}
    tot = 0
    for r in range(runs):
        w('run %i' % (ns - 1))
        w('Memory usage per processor = 1.73467 Mbytes')
        if c.get('thermo') is not None:
            w(' '.join(c['thermo']) + ' ')
            cols = {}
            for n in c['thermo']:
                if n == 'Step':
                    s, v = Fmt('%8.0f')(np.arange(ns) + r * (ns - 1))
                else:
                    k = THERMO.index(n)
                    lo, hi = {'Temp': (100, 900), 'Volume': (100, 200), 'Cella': (3, 9), 'Cellb': (3, 9), 'Cellc': (3, 9), 'CellAlpha': (70, 110),
                              'CellBeta': (70, 110), 'CellGamma': (70, 110)}.get(n, (-900, 900))
                    s, v = Fmt('%12.8g')(vals((ns,), 100 * r + k, lo, hi))
                cols[n] = s
                th.setdefault(n, []).append(v)
            for t in range(ns):
                if not c.get('norows'):
                    w(' '.join(cols[n][t] for n in c['thermo']) + ' ')
            if not c.get('norows'):
                w('Loop time of 0.175041 on 1 procs (1 MPI x 1 OpenMP) for %i steps with %i atoms' % (ns, nat))
        if c.get('norows'):                         # killed before the first row
            break
        w('')
        w('Performance: 86.400 ns/day, 0.278 hours/ns, 1333.333 timesteps/s')
        w('Pair  time (%) = 0.123985 (70.8319)')
        w('Histogram: 1 0 0 0 0 0 0 0 0 0')
        w('')
    fn = os.path.join(d, 'log.lammps')
    if 'log' not in miss:
        open(fn, 'w').write('\n'.join(L) + '\n')
        th = {k: np.concatenate(v) for k, v in th.items() if not c.get('norows')}
        g = th.get
        raw['temperature'], raw['etot'], raw['ekin'], raw['volume'] = g('Temp'), g('PotEng'), g('KinEng'), g('Volume')
        if all(k in th for k in THERMO[3:9]):
            raw['cryst_const'] = np.array([th[k] for k in THERMO[3:9]]).T
        if all(k in th for k in THERMO[13:]):
            xx, yy, zz, xy, xz, yz = [th[k] for k in THERMO[13:]]
            raw['stress'] = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]).transpose(2, 0, 1)
    else:
        raw['timestep'] = None
    nd = ns * runs - (runs - 1) if c.get('realdump') else ns
    if c.get('dump') is not None:
        raw['natoms'] = nat
        dv = {}
        cells = []
        with open(os.path.join(d, 'lmp.out.dump'), 'w') as fd:
            data = {n: Fmt('%.6g')(vals((nd, nat), 500 + j, -3, 7)) for j, n in enumerate(c['dump'])}
            for t in range(nd):
                fd.write('ITEM: TIMESTEP\n%i\nITEM: NUMBER OF ATOMS\n%i\n' % (t, nat))
                tri = c.get('box') != 'ortho'
                sg = [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (-1, -1, -1), (1, 1, -1), (1, -1, -1)][(t + c.get('tilt', 0)) % 6]
                xy, xz, yz = [round(0.4 * s + 0.05 * t * s, 5) for s in sg] if tri else (0, 0, 0)
                lo = [round(v, 5) for v in ([0.5, -1.25, 2.0] if c.get('shift') else [0, 0, 0])]
                ln = [round(4.0 + 0.1 * t, 5), round(5.0 + 0.2 * t, 5), round(6.0 + 0.3 * t, 5)]
                hi = [a + b for a, b in zip(lo, ln)]
                lob = [lo[0] + min(0, xy, xz, xy + xz), lo[1] + min(0, yz), lo[2]]
                hib = [hi[0] + max(0, xy, xz, xy + xz), hi[1] + max(0, yz), hi[2]]
                fd.write('ITEM: BOX BOUNDS %spp pp pp\n' % ('xy xz yz ' if tri else ''))
                for i, tl in enumerate((xy, xz, yz)):
                    fd.write('%.10g %.10g%s\n' % (lob[i], hib[i], ' %.10g' % tl if tri else ''))
                cells.append([[ln[0], 0, 0], [xy, ln[1], 0], [xz, yz, ln[2]]])
                fd.write('ITEM: ATOMS %s \n' % ' '.join(c['dump']))
                for i in range(nat):
                    fd.write(' '.join({'id': '%i' % (i + 1), 'type': '%i' % types[i]}.get(n, data[n][0][t, i]) for n in c['dump']) + ' \n')
        tri3 = lambda a: np.stack([data[k][1] for k in a], axis=-1) if all(k in data for k in a) else None
        raw['cell'] = np.array(cells)
        raw['coords_frac'], raw['coords'] = tri3(['xsu', 'ysu', 'zsu']), tri3(['xu', 'yu', 'zu'])
        raw['forces'], raw['velocity'] = tri3(['fx', 'fy', 'fz']), tri3(['vx', 'vy', 'vz'])
    opt = {}
    if c.get('dcd'):
        raw = {k: raw[k] for k in 'ekin etot natoms stress temperature timestep volume'.split()}
        raw['symbols'] = None
        crd = np.asarray(vals((nd, nat, 3), 6, -9, 9), np.float32)
        ln, an = vals((nd, 3), 7, 3, 20), vals((nd, 3), 8, 60, 120)
        open(os.path.join(d, 'lmp.out.dcd'), 'wb').write(dcd_bytes(crd, ln, np.cos(np.radians(an)), nd, 1.0))
        raw['coords'], raw['cryst_const'], raw['natoms'], raw['volume'] = crd, np.concatenate((ln, an), 1), nat, None
    if c.get('symbols') == 'file':
        open(os.path.join(d, 'lmp.struct.symbols'), 'w').write('\n'.join(sy))
        raw['symbols'] = sy
        if c.get('ord'):
            opt['order'] = {k: i + 1 for i, k in enumerate(c['ord'])}   # the file comes first
    elif c.get('dump') is not None and 'type' in c['dump']:
        if c.get('symbols') == 'order':
            opt['order'] = {k: el.index(k) + 1 for k in c.get('ord', el)}
            raw['symbols'] = sy
        elif c.get('symbols') == 'element' and 'log' not in miss:
            raw['symbols'] = sy
    return ('LammpsDcdMDOutputFile' if c.get('dcd') else 'LammpsTextMDOutputFile'), fn, raw, opt

# units of the programs in eV, Angstrom, fs, GPa (independent of pwtools)
_Ry, _Ha, _B, _th = 13.6056930, 27.2113860, 0.529177210, 2.41888433e-2
UNITS = {'PwSCFOutputFile': dict(energy=_Ry, length=_B, forces=_Ry / _B, stress=0.1)}
UNITS['PwMDOutputFile'] = UNITS['PwVCMDOutputFile'] = dict(UNITS['PwSCFOutputFile'], time=2 * _th)
UNITS['CpmdSCFOutputFile'] = dict(energy=_Ha, length=_B, forces=_Ha / _B, stress=0.1)
UNITS['CpmdMDOutputFile'] = dict(UNITS['CpmdSCFOutputFile'], time=_th, velocity=_B / _th)
UNITS['Cp2kSCFOutputFile'] = dict(energy=_Ha, forces=_Ha / _B)
UNITS['Cp2kMDOutputFile'] = UNITS['Cp2kRelaxOutputFile'] = UNITS['Cp2kDcdMDOutputFile'] = dict(energy=_Ha, forces=_Ha / _B, stress=1e-4, velocity=_B / _th)
UNITS['LammpsTextMDOutputFile'] = UNITS['LammpsDcdMDOutputFile'] = dict(stress=1e-4, velocity=1e-3, time=1e3)
KIND = dict(coords='length', cell='length', etot='energy', ekin='energy', forces='forces', stress='stress', velocity='velocity', timestep='time')
READERS = {'PwSCFOutputFile': 'read_pw_scf', 'PwMDOutputFile': 'read_pw_md', 'PwVCMDOutputFile': 'read_pw_vcmd', 'CpmdSCFOutputFile': 'read_cpmd_scf',
           'CpmdMDOutputFile': 'read_cpmd_md', 'Cp2kSCFOutputFile': 'read_cp2k_scf', 'Cp2kMDOutputFile': 'read_cp2k_md', 'Cp2kRelaxOutputFile': 'read_cp2k_relax',
           'Cp2kDcdMDOutputFile': 'read_cp2k_md_dcd', 'LammpsTextMDOutputFile': 'read_lammps_md_txt', 'LammpsDcdMDOutputFile': 'read_lammps_md_dcd'}
GEN = dict(pw_scf=pw_scf, pw_md=pw_md, cpmd_scf=cpmd_scf, cpmd_md=cpmd_md, cp2k_scf=cp2k_scf, cp2k_md=cp2k_md, lammps=lammps)
