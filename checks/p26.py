"""P26: parsers return what is in generated program outputs."""
import itertools, os
import numpy as np
from mc import *
import co, outgen
from pwtools import parse, io as pio

chk = Check('P26', level='exploration',
    rule='Generators write the outputs of one run (PWscf scf/md/relax/vc-relax/vc-md, CPMD single point and MD, CP2K single point/MD/relaxation/DCD, LAMMPS text/DCD) from known numbers for all atom numbers, step numbers, header unit variants, column orders and subsets of missing blocks or files of the bounded families; every attribute is compared with the printed number, through single getters, complete parsing in two orders, the structure or trajectory object (converted units, user units, second request) and the reader functions. All ordered pairs of parser uses are run, one after the other and interleaved. Non-trivial: at least one quantity is present; pairs of different files.',
    assumptions=['numbers are separated by white space, as the documented formats do for ordinary values', 'one run per directory', 'containers are only built if the file has every step of each quantity'])

def same(a, b, msg, rtol=1e-9, atol=1e-11):
    if b is None or a is None:
        check(a is None and b is None, '%s: got %r, file has %r' % (msg, None if a is None else 'values', None if b is None else 'values'))
    elif isinstance(b, (bool, int)) or isinstance(b, list):
        check(type(a) is not np.ndarray and a == b, '%s: got %r, file has %r' % (msg, a, b))
    else:
        check(np.shape(a) == np.shape(b), '%s: shape %r, file has %r' % (msg, np.shape(a), np.shape(b)))
        assert_close(np.asarray(a, float), np.asarray(b, float), msg, rtol=rtol, atol=atol)

def tol(cls, k):
    # temperature_cell and angstrom blocks go through natural constants
    return dict(rtol=2e-6) if k in ('temperature_cell', 'coords', 'cell') else {}

def expected(cls, raw, units=None):
    u = dict(outgen.UNITS[cls], **(units or {}))
    ref = {}
    for k, v in raw.items():
        if v is None or k not in outgen.KIND and k != 'cryst_const':
            ref[k] = v
        elif k == 'cryst_const':
            v = np.array(v, float)
            v[..., :3] *= u.get('length', 1.0)
            ref[k] = v
        else:
            ref[k] = np.asarray(v, float) * u.get(outgen.KIND[k], 1.0)
    return ref

CONT = 'cell coords coords_frac cryst_const etot ekin forces stress symbols temperature velocity timestep volume pressure natoms'.split()

def check_cont(obj, cls, raw, msg, units=None):
    ref = expected(cls, raw, units)
    traj = type(obj).__name__ == 'Trajectory'
    ns = obj.nstep if traj else None
    ext = lambda k, v: np.array([v] * ns) if traj and k in ('cell', 'cryst_const') and np.ndim(v) == (2 if k == 'cell' else 1) and ns is not None else v
    if ref.get('stress') is not None:
        ref['pressure'] = np.trace(ref['stress'], axis1=-2, axis2=-1) / 3
    cell, cc, x, f = (ref.get(k) for k in ('cell', 'cryst_const', 'coords', 'coords_frac'))
    per = (lambda fn, *a: np.array([fn(*q) for q in zip(*a)])) if traj else (lambda fn, *a: fn(*a))
    if cell is None and cc is not None:
        cell = ref['cell'] = per(co.cc2cell, ext('cryst_const', cc))
    elif cell is not None:
        cell = ref['cell'] = ext('cell', np.asarray(cell))
    if cell is not None:
        if cc is None:
            ref['cryst_const'] = per(co.cell2cc, cell)
        if ref.get('volume') is None:
            ref['volume'] = per(co.volume, cell) if traj else co.volume(cell)
        if x is None and f is not None:
            ref['coords'] = per(co.f2c, f, cell)
        if f is None and x is not None:
            ref['coords_frac'] = per(co.c2f, x, cell)
    for k in CONT:
        if k not in obj.attr_lst:
            continue
        v = ref.get(k)
        if k in ('ekin', 'temperature', 'velocity', 'natoms') and raw.get(k) is None:
            continue                                   # derived elsewhere (P07)
        same(getattr(obj, k), v, '%s: %s of the %s' % (msg, k, type(obj).__name__), rtol=3e-6, atol=3e-6 if k == 'coords_frac' else 1e-9)

def usable(raw):
    """lengths along time agree"""
    n = set(len(raw[k]) for k in ('coords', 'coords_frac', 'etot', 'ekin', 'temperature', 'forces', 'stress', 'velocity', 'volume', 'cryst_const') if raw.get(k) is not None)
    if raw.get('cell') is not None and np.ndim(raw['cell']) == 3:
        n.add(len(raw['cell']))
    return len(n) == 1 and (raw.get('coords') is not None or raw.get('coords_frac') is not None)

def run(what, c, ctx, cont=True):
    d = ctx.tmp()
    cls, fn, raw, opt = outgen.GEN[what](d, c)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        return _run(what, c, ctx, cont, cls, os.path.basename(fn) if c.get('rel') else fn, raw, opt)
    finally:
        os.chdir(cwd)

def _run(what, c, ctx, cont, cls, fn, raw, opt):
    P = getattr(parse, cls)
    scf = 'SCF' in cls
    names = list(raw)
    check(set(P(fn, **opt).attr_lst) == set(names), 'attribute list %r' % (P(fn, **opt).attr_lst,))
    if all(raw[k] is None for k in names if k not in ('scf_converged', 'timestep')):
        ctx.trivial()
    one = P(fn, **opt)
    for k in names:
        same(getattr(one, 'get_' + k)(), raw[k], '%s: get_%s() on one parser' % (cls, k), **tol(cls, k))
        ctx.eval(1)
    for k in names:                                   # every getter as the first one asked
        same(getattr(P(fn, **opt), 'get_' + k)(), raw[k], '%s: get_%s() alone on a new parser' % (cls, k), **tol(cls, k))
        ctx.eval(1)
    cont = cont and (scf or usable(raw))
    for rev in (False, True):
        units = {} if not rev else {'stress': 7.0, 'forces': 0.5}
        p = P(fn, units=units or None, **opt)
        if rev:
            p.attr_lst = p.attr_lst[::-1]
        if rev or not cont:
            p.parse()
        get = p.get_struct if scf else p.get_traj
        if cont:
            obj = get()
        for k in p.attr_lst:
            same(getattr(p, k), raw[k], '%s: %s after parsing%s' % (cls, k, ' in reversed order' if rev else ''), **tol(cls, k))
        ctx.eval(len(names))
        if cont:
            check_cont(obj, cls, raw, cls, units)
            try:
                obj2 = get()
            except Exception:
                obj2 = None                        # one object per parser
            if obj2 is not None:
                check_cont(obj2, cls, raw, cls + ' (second object)', units)
                check_cont(obj, cls, raw, cls + ' (first object after the second)', units)
            ctx.eval(2)
    if cont:
        units = {'length': 2.0} if c.get('rel') and 'length' in outgen.UNITS[cls] else {}
        obj = getattr(pio, outgen.READERS[cls])(fn, **dict(opt, **({'units': units} if units else {})))
        check(type(obj).__name__ == ('Structure' if scf else 'Trajectory'), 'kind of object from %s' % outgen.READERS[cls])
        check_cont(obj, cls, raw, outgen.READERS[cls], units)
        ctx.eval(1)

# --- PWscf -----------------------------------------------------------------
SCFM = ['coords', 'cell', 'alat', 'forces', 'stress', 'etot', 'conv', 'natoms', 'nk']

def gen_scf(tier):
    mis = [list(m) for m in subsets(SCFM) if len(m) <= (2 if tier == 'quick' else 9)]
    for i, m in enumerate(mis):
        yield dict(nat=1 + i % 3, miss=m, extra=i % 3, use_alat=i % 4 != 3, nscf=1 + i % 2, tag=['a_0', 'alat'][i // 2 % 2], sy=i % 3, rel=i % 2, verb=i // 2 % 2, again=i // 3 % 2)
    for nat, ex, ua, ns, tag in itertools.product((1, 2, 4), (0, 3), (True, False), (1, 2), ('a_0', 'alat')):
        yield dict(nat=nat, miss=[], extra=ex, use_alat=ua, nscf=ns, tag=tag, sy=1, cs=2, verb=ns - 1, again=int(nat == 2 or ex == 3))
    for nat in (11, 101):
        yield dict(nat=nat, miss=[], extra=1, use_alat=True, nscf=1, tag='alat', nk=112)

@chk.group(gen_scf)
def pw_scf(c, ctx):
    run('pw_scf', c, ctx)
    # the lattice parameter on request
    cls, fn, raw, opt = outgen.pw_scf(ctx.tmp(), c)
    al = None if 'alat' in c['miss'] else float(outgen.Fmt('%9.4f')(c.get('alat', 10.2626))[1])
    for ua in (True, False):
        p = parse.PwSCFOutputFile(fn, use_alat=ua)
        for a in (None, True, False):
            want = al if (ua if a is None else a) else 1.0
            got = p.get_alat() if a is None else p.get_alat(a)
            check(got == want, lambda: 'get_alat(%r) with use_alat=%r: %r, not %r' % (a, ua, got, want))
            ctx.eval(1)
    if not c.get('use_alat') and not set(c['miss']) & {'coords', 'cell'}:
        d = ctx.tmp()
        cls, fn, raw, opt = outgen.pw_scf(d, c)
        L = 1.2345678901234 * outgen._B
        st = pio.read_pw_scf(fn, use_alat=False, units={'length': L})
        check_cont(st, cls, raw, 'read_pw_scf with own lattice constant', {'length': L})

MDM = ['coordsmd', 'forces', 'stress', 'etot', 'conv', 'ekin', 'timestep', 'natoms', 'coords', 'cell', 'alat']
CU = ['', 'bohr', '(bohr)', '{bohr}', 'alat', '(alat)', '{alat}', 'angstrom', '(angstrom)', 'crystal', '(crystal)', '{crystal}']
LU = [None, '', '(alat)', 'alat', '(alat= X)', '(alat= Y)', '(alat=Z)', 'bohr', '(bohr)', 'angstrom', '(angstrom)', '{angstrom}']

def gen_md(tier):
    n = 0
    for cu, lu in itertools.product(CU, LU):
        for k in range(1 if tier == 'quick' else 6):
            n += 1
            yield dict(nat=1 + n % 3, ns=1 + (n // 3 + k) % 3, miss=[], extra=n % 2, first=n % 5 != 0, cunit=cu, lunit=lu, ifpos=n % 4 == 1,
                       start_T=n % 3 == 1, last=n % 5 == 0 or n % 2 == 0, use_alat=n % 7 != 3, tag=['alat', 'a_0'][n % 2], vcmd=n % 6 == 5, rel=n % 2, verb=n // 2 % 2, again=n // 4 % 2)
    for i, m in enumerate(subsets(MDM)):
        if len(m) > (2 if tier == 'quick' else 4) or tier == 'quick' and len(m) == 2 and i % 2:
            continue
        yield dict(nat=1 + i % 2, ns=1 + i % 3, miss=list(m), extra=i % 2, first=True, cunit=CU[i % len(CU)], lunit=LU[(i // 3) % len(LU)], ifpos=i % 3 == 0,
                   start_T=i % 2 == 0, last=i % 4 != 0, use_alat=True, vcmd=i % 5 == 4)
    for nat, ns, vc, first, last in itertools.product((1, 2, 12), (1, 2, 5, 11), (False, True), (True, False, 2), (True, False)):
        if not first and not last:
            continue
        yield dict(nat=nat, ns=ns, miss=[], extra=0, first=first, last=last, cunit='(angstrom)', lunit='(alat= X)' if ns % 2 else None, vcmd=vc, start_T=True)

@chk.group(gen_md)
def pw_md(c, ctx):
    # without the last scf run the quantities belong to the previous step (documented: the last nstep values are used)
    run('pw_md', c, ctx, cont=c.get('use_alat', True))

# --- CPMD ------------------------------------------------------------------
def gen_cpmd(tier):
    for i, m in enumerate(subsets(['scale', 'forces', 'stress', 'etot', 'restart', 'conv', 'nk'])):
        yield dict(what='cpmd_scf', nat=1 + i % 3, miss=list(m), geoextra=i % 2, nscf=[9, 26, 100][i % 3], sy=i % 2, rel=i % 2, two=i % 3 == 1)
    yield dict(what='cpmd_scf', nat=2, miss=['geometry', 'scale'])
    yield dict(what='cpmd_scf', nat=12, miss=[])
    for nat, ns, nc, cf, stf, tr in itertools.product((1, 3), (1, 2, 3), (9, 8, 6), (0, 1), (0, 1), ('T', 'TF', 'F', 'none')):
        i = nat + ns * 2 + nc + cf
        if tier == 'quick' and (i + stf + len(tr)) % 2:
            continue
        yield dict(what='cpmd_md', nat=nat, ns=ns, ncol=nc, cellfile=cf, stress=stf, traj='T' in tr, ftraj='F' in tr, newdata=i % 3 == 0,
                   miss=[[], ['energies'], ['timestep']][(i + stf) % 3 if nc == 8 else 0], geoextra=cf)
    yield dict(what='cpmd_md', nat=11, ns=12, ncol=9, cellfile=1, stress=1, traj=True, ftraj=True, newdata=1, miss=[])

@chk.group(gen_cpmd)
def cpmd(c, ctx):
    run(c['what'], c, ctx)

# --- CP2K ------------------------------------------------------------------
def gen_cp2k(tier):
    for i, m in enumerate(subsets(['etot', 'forces', 'stress'])):
        for nat in (1, 2, 12):
            yield dict(what='cp2k_scf', nat=nat, miss=list(m), rel=i % 2)
    F = ['pos', 'frc', 'vel', 'cellfile', 'stress', 'ener', 'outforces', 'natoms', 'timestep']
    for i, m in enumerate(subsets(F)):
        if len(m) > (2 if tier == 'quick' else 4):
            continue
        yield dict(what='cp2k_md', nat=1 + i % 3, ns=1 + i % 3, miss=list(m), sy=i % 3, rel=i % 2)
        if i % 2 == 0 or tier != 'quick':
            yield dict(what='cp2k_md', nat=1 + i % 3, ns=1 + i % 4, miss=list(m), dcd=1)
    for i, m in enumerate(subsets(['pos', 'frc', 'stress', 'outforces', 'cellfile'])):
        yield dict(what='cp2k_md', nat=1 + i % 3, ns=1 + i % 3, miss=list(m), relax='CELL_OPT')
        yield dict(what='cp2k_md', nat=1 + i % 2, ns=1 + i % 4, miss=list(m), relax='GEO_OPT')
    yield dict(what='cp2k_md', nat=11, ns=12, miss=['frc'])

# a broken cell optimization: other number of cells than usual
@chk.group(lambda tier: [dict(nat=n, ns=ns, off=o) for n in (1, 2) for ns in (2, 3) for o in (-1, 0, 2, 1)])
def cp2k_cell_offset(c, ctx):
    d = ctx.tmp()
    cls, fn, raw, opt = outgen.cp2k_md(d, dict(nat=c['nat'], ns=c['ns'], miss=[], relax='CELL_OPT'))
    f = os.path.join(d, 'PROJECT-1.cell')
    L = open(f).read().splitlines(True)
    rows = [x for x in L if not x.startswith('#')]
    rows = rows[:1 - c['off']] if c['off'] > 1 else rows + [rows[-1]] * (1 - c['off'])
    head = [x for x in L if x.startswith('#')]
    open(f, 'w').write(''.join(head + rows))
    P = getattr(parse, cls)
    for meth in ('get_cell', 'get_traj'):
        try:
            v = getattr(P(fn, **opt), meth)()
        except Exception:
            v = None
            check(c['off'] != 1, 'proper cell optimization: %s() failed' % meth)
        if v is None:
            continue
        cell = v if meth == 'get_cell' else v.cell
        check(len(cell) == c['ns'] + 1, '%i steps, %i cells in the file: %s() gives %i cells' % (c['ns'] + 1, len(rows), meth, len(cell)))
        for t in range(len(rows)):
            assert_close(cell[t], [[float(q) for q in rows[t].split()[2:11]][3 * i:3 * i + 3] for i in range(3)], '%s(): cell of step %i' % (meth, t), rtol=1e-9, atol=1e-9)
        ctx.eval(1)

@chk.group(gen_cp2k)
def cp2k(c, ctx):
    run(c['what'], c, ctx)

# --- LAMMPS ----------------------------------------------------------------
T = outgen.THERMO
DU = ['id', 'type', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz', 'vx', 'vy', 'vz', 'xsu', 'ysu', 'zsu']

def gen_lammps(tier):
    thermos = [T, [T[0]] + T[:0:-1], ['Step', 'Temp', 'PotEng'], ['Step', 'PotEng', 'Pyz', 'Pxz', 'Pxy', 'Pzz', 'Pyy', 'Pxx', 'KinEng'],
               ['Step'] + T[3:9], T[:-1], ['Step', 'Volume'], None]
    dumps = [DU, DU[::-1], ['id', 'type', 'xsu', 'ysu', 'zsu'], ['id', 'zu', 'xu', 'yu', 'type'], ['id', 'vz', 'vy', 'vx', 'xu', 'yu', 'zu', 'type'],
             ['xu', 'fz', 'yu', 'fy', 'zu', 'fx'], ['id', 'type', 'x', 'y', 'z', 'xs', 'ys', 'zs'], None]
    n = 0
    for i, j in itertools.product(range(len(thermos)), range(len(dumps))):
        for box in ('ortho', 'tri'):
            n += 1
            if tier == 'quick' and (i + j) % 2 and box == 'ortho':
                continue
            yield dict(what='lammps', nat=1 + n % 3, ns=1 + (n // 2) % 3, thermo=thermos[i], dump=dumps[j], box=box, shift=n % 2, tilt=n % 6, runs=1,
                       symbols=['file', 'element', 'order', None][n % 4], ntyp=3 if n % 5 else 1, miss=[], rel=n % 2)
    for tilt, ns, runs, sym in itertools.product(range(6), (1, 4), (1, 2, 3), ('element', 'file')):
        yield dict(what='lammps', nat=2, ns=ns, thermo=T[:3], dump=DU, box='tri', shift=1, tilt=tilt, runs=runs, realdump=1, symbols=sym, miss=['timestep'] if ns == 4 else [])
    for el, sym in itertools.product(itertools.permutations(['Al', 'N', 'Si']), ('order', 'element')):
        for o in (el, el[::-1]) if sym == 'order' else (el,):
            yield dict(what='lammps', nat=3, ns=1, thermo=T[:3], dump=DU, box='ortho', runs=1, symbols=sym, el=list(el), ord=list(o), miss=[])
    for nat, ns, sym in itertools.product((1, 2, 5), (1, 3), ('file', None)):
        yield dict(what='lammps', nat=nat, ns=ns, thermo=T, dump=None, dcd=1, symbols=sym, runs=1, miss=[])
        yield dict(what='lammps', nat=nat, ns=ns, thermo=T, dump=DU, dcd=1, symbols=sym, runs=1, miss=[])
    for nat, o in itertools.product((1, 3), itertools.permutations(['N', 'Si', 'Al'])):
        yield dict(what='lammps', nat=nat, ns=2, thermo=T, dump=DU, box='tri', symbols='file', ord=list(o), runs=1, miss=[])
    for dm, dcd in ((DU, 0), (None, 0), (DU, 1), (None, 1)):
        yield dict(what='lammps', nat=2, ns=2, thermo=T, dump=dm, dcd=dcd, box='tri', symbols='file', runs=1, miss=[], norows=1)
    yield dict(what='lammps', nat=12, ns=12, thermo=T, dump=DU, box='tri', symbols='file', runs=1, miss=[])
    yield dict(what='lammps', nat=2, ns=2, thermo=T, dump=DU, box='tri', symbols='file', runs=1, miss=['log'])

@chk.group(gen_lammps)
def lammps(c, ctx):
    run('lammps', c, ctx)

# --- one file never changes how another one is read -------------------------
USES = [('pw_scf', dict(nat=2, miss=[], extra=1)), ('pw_scf', dict(nat=1, miss=['forces', 'stress'], use_alat=False, cs=3)),
        ('pw_md', dict(nat=2, ns=2, miss=[], cunit='(alat)', lunit='(alat= Y)')), ('pw_md', dict(nat=1, ns=1, miss=['forces'], cunit='crystal', lunit='bohr', vcmd=1)),
        ('cpmd_scf', dict(nat=2, miss=[])), ('cpmd_md', dict(nat=1, ns=2, ncol=9, cellfile=1, stress=1, ftraj=1, miss=[])),
        ('cp2k_scf', dict(nat=2, miss=[])), ('cp2k_md', dict(nat=2, ns=2, miss=[])), ('cp2k_md', dict(nat=1, ns=2, miss=[], relax='CELL_OPT')),
        ('cp2k_md', dict(nat=1, ns=2, miss=[], dcd=1)), ('lammps', dict(nat=2, ns=2, thermo=T, dump=DU, box='tri', symbols='file', miss=[])),
        ('lammps', dict(nat=2, ns=2, thermo=T, dump=None, dcd=1, symbols=None, miss=[]))]

def gen_pairs(tier):
    for i, j in itertools.product(range(len(USES)), repeat=2):
        yield [i, j]
    if tier != 'quick':
        for t in itertools.product(range(0, len(USES), 2), repeat=3):
            yield list(t)

@chk.group(gen_pairs)
def pairs(case, ctx):
    if len(set(case)) == 1:
        ctx.trivial()
    made = []
    for k in case:
        what, c = USES[k]
        made.append(outgen.GEN[what](ctx.tmp(), c))
    def mk(m, **kw):
        cls, fn, raw, opt = m
        return getattr(parse, cls)(fn, **dict(opt, **kw))
    def chkp(p, m, msg, units=None):
        scf = 'SCF' in m[0]
        obj = p.get_struct() if scf else p.get_traj()
        for k in p.attr_lst:
            same(getattr(p, k), m[2][k], '%s: %s' % (msg, k), **tol(m[0], k))
        check_cont(obj, m[0], m[2], msg, units)
        ctx.eval(1)
    # interleaved: all parsers exist before the first one is used, with and without user units
    un = {'stress': 3.0, 'energy': 2.0, 'velocity': 5.0, 'time': 0.25}
    ps = [mk(m, **({'units': un} if i == 0 else {})) for i, m in enumerate(made)]
    keep = dict(un)
    for p, m, i in zip(ps[::-1], made[::-1], range(len(made))[::-1]):
        chkp(p, m, '%s made together with %r' % (m[0], [q[0] for q in made]), un if i == 0 else None)
    check(un == keep, "caller's unit dictionary changed")
    for m in made:
        chkp(mk(m), m, '%s after use of %r' % (m[0], [q[0] for q in made]))

# --- cif, pdb --------------------------------------------------------------
def gen_pdb(tier):
    for nat, cr, rec, style in itertools.product((1, 2, 4), (0, 1), ('ATOM', 'HETATM'), range(4)):
        yield [nat, cr, rec, style]

@chk.group(gen_pdb)
def pdb(case, ctx):
    nat, cr, rec, style = case
    sy = [['C', 'N', 'O', 'H'], ['AL', 'N', 'SI', 'O'], ['Al', 'Si', 'H', 'C'], ['O', 'O', 'H', 'H']][style][:nat]
    cs, c = outgen.Fmt('%8.3f')(co.gen_arr((nat, 3), 3 + style, -40, 40))
    gs, g = outgen.Fmt('%9.3f')(co.gen_arr((3,), 5, 3, 99))
    as_, a = outgen.Fmt('%7.2f')(co.gen_arr((3,), 6, 70, 120))
    fn = os.path.join(ctx.tmp(), 'x.pdb')
    with open(fn, 'w') as fd:
        fd.write('HEADER    test\nREMARK   1 nothing\n')
        if cr:
            fd.write('CRYST1%s%s P 1           1\n' % (''.join(gs), ''.join(as_)))
        for i in range(nat):
            fd.write('%-6s%5i %-4s %3s %s%4i    %s%s%s\n' % (rec, i + 1, (' ' if len(sy[i]) == 1 else '') + sy[i], ['   ', 'MOL', 'GLY', '   '][style], ' ' if style % 2 == 0 else 'A',
                     i + 1, cs[i, 0], cs[i, 1], ''.join([cs[i, 2], '  1.00  0.00'])))
        fd.write('END\n')
    ref = dict(coords=c, symbols=[s[0] + s[1:].lower() for s in sy], cryst_const=np.concatenate((g, a)) if cr else None)
    p = parse.PDBFile(fn)
    p.parse()
    for k, v in ref.items():
        same(getattr(p, k), v, 'pdb ' + k)
        same(getattr(parse.PDBFile(fn), 'get_' + k)(), v, 'pdb get_' + k)
    st = pio.read_pdb(fn)
    assert_close(st.coords, c, 'pdb coords of the structure', 1e-12, 1e-12)
    check(list(st.symbols) == ref['symbols'], 'pdb symbols')
    if cr:
        assert_close(st.cryst_const, ref['cryst_const'], 'pdb cell of the structure', 1e-12, 1e-12)
        assert_close(st.coords_frac, co.c2f(c, co.cc2cell(ref['cryst_const'])), 'pdb fractional coordinates', 1e-8, 1e-8)
    else:
        check(st.cell is None and st.cryst_const is None, 'pdb without cell')
    ctx.eval(8)
