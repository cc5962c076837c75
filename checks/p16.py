"""P16: supercells."""
import itertools
import numpy as np
from mc import *
import co
from pwtools import crys

chk = Check('P16', level='exploration',
    rule='All repetitions 1..3 (thorough 1..4 and negative) per direction x cells x symbol patterns x structure / fixed-cell / variable-cell trajectory x mask direction x both methods. Oracle: explicit loops over images. Non-trivial: more than one cell.',
    assumptions=['repetitions are non-zero integers'])

@chk.group(lambda tier: [[a, b, c, d] for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4) for d in (1, -1)])
def masks(case, ctx):
    a, b, c, d = case
    m = crys.scell_mask(a, b, c, direc=d)
    rng = lambda x: [i if x > 0 else -i for i in range(abs(x))][::d]
    want = [[i, j, k] for i in rng(a) for j in rng(b) for k in rng(c)]
    assert_equal(m, np.array(want, dtype=float).reshape(len(want), 3) if want else m, 'scell_mask %s' % case)
    check(len(m) == abs(a * b * c), 'number of cells')
    if d == 1:
        assert_equal(crys.scell_mask(a, b, c), m, 'default direction')
    if abs(a * b * c) <= 1:
        ctx.trivial()

SYM = [['H'], ['H', 'O'], ['O', 'H'], ['H', 'H'], ['H', 'O', 'H'], ['Al', 'N', 'Al', 'N']]
def gen(tier):
    r = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for dims in itertools.product(r, repeat=3):
        for c in co.CELLS:
            yield [list(dims), c]
    for dims in itertools.product((-2, -1, 2), repeat=3):
        yield [list(dims), 'tri']

@chk.group(lambda tier: uniq(gen(tier)))
def supercell(case, ctx):
    dims, c = case
    cell = co.CELLS[c]
    N = abs(dims[0] * dims[1] * dims[2])
    for sy in SYM:
        n = len(sy)
        f = co.gen_frac(n, len(sy), -0.4, 1.3)
        for kind in ('struct', 'traj1', 'traj', 'gen', 'shear', 'rot'):
            nstep = {'struct': 0, 'traj1': 1, 'traj': 2}.get(kind, 2 + (kind == 'gen'))
            if nstep:
                ff = np.array([f + 0.07 * i for i in range(nstep)])
                cc = co.vcells(cell, nstep, kind) if kind in ('gen', 'shear', 'rot') else np.array([cell] * nstep)
                obj = crys.Trajectory(coords_frac=ff, cell=cell if kind in ('traj', 'traj1') else cc, symbols=list(sy))
            else:
                ff, cc = f[None], cell[None]
                obj = crys.Structure(coords_frac=f, cell=cell, symbols=list(sy))
            fr = freeze(obj)
            res = {}
            for direc in (1, -1):
                for method in ((1, 2) if not nstep else (1,)):
                    res[(direc, method)] = crys.scell(obj, tuple(dims), method=method, direc=direc)
            res['default'] = crys.scell(obj, list(dims))
            if nstep:
                res['3d'] = crys.scell3d(obj, tuple(dims))
            check(freeze(obj) == fr, 'argument changed')
            for key, sc in res.items():
                what = '%s %s %s %s %s' % (dims, c, sy, kind, key)
                check(sc.is_traj == bool(nstep) and sc.is_struct == (not nstep), what + ': type')
                check(sc.natoms == n * N, what + ': natoms')
                cf = sc.coords_frac if nstep else sc.coords_frac[None]
                ca = sc.coords if nstep else sc.coords[None]
                cl = sc.cell if nstep else sc.cell[None]
                vo = sc.volume if nstep else [sc.volume]
                check(len(cf) == max(nstep, 1), what + ': steps')
                rng = lambda x: [i if x > 0 else -i for i in range(abs(x))]
                for t in range(len(cf)):
                    wantcell = np.array([[cc[t][i][k] * dims[i] for k in range(3)] for i in range(3)])
                    assert_close(cl[t], wantcell, what + ': cell')
                    assert_close(vo[t], co.volume(cc[t]) * N, what + ': volume', 1e-8)
                    # exactly one atom per atom and image
                    left = list(range(n * N))
                    for ia in range(n):
                        for im in itertools.product(*map(rng, dims)):
                            w = (ff[t][ia] + im).dot(cc[t])
                            hit = [j for j in left if abs(ca[t][j] - w).max() < 1e-7]
                            check(len(hit) == 1, lambda: '%s: %i atoms at image %s of atom %i' % (what, len(hit), im, ia))
                            check(sc.symbols[hit[0]] == sy[ia], what + ': symbol of the image')
                            check(hit[0] // N == ia, what + ': documented atom order')
                            left.remove(hit[0])
                    assert_close(cf[t].dot(wantcell), ca[t], what + ': frac and cart', 1e-8, 1e-8)
                ctx.eval()
            base = res['default']
            for key in res:
                if key == 'default' or key == (1, 1) or key == (1, 2) or key == '3d':
                    assert_close(res[key].coords_frac, base.coords_frac, 'methods differ', 1e-12, 1e-12)
            if not nstep:
                assert_close(res[(-1, 1)].coords_frac, res[(-1, 2)].coords_frac, 'methods differ, direc=-1', 1e-12, 1e-12)
            if N > 1:
                assert_close(res[(-1, 1)].coords_frac.reshape(-1, n, N, 3)[:, :, ::-1], base.coords_frac.reshape(-1, n, N, 3), 'direc=-1 is the reverse order', 1e-12, 1e-12)
    # no symbols
    o = crys.Structure(coords_frac=co.gen_frac(2), cell=cell)
    s = crys.scell(o, dims)
    check(s.symbols is None, 'symbols invented')
    if N == 1:
        ctx.trivial()

@chk.group(lambda tier: [[c, list(d1), list(d2)] for c in ('tri', 'fcc', 'rottri') for d1 in itertools.product((1, 2), repeat=3) for d2 in itertools.product((1, 2), repeat=3)])
def repeated(case, ctx):
    """a supercell of a supercell is the supercell of the product"""
    c, d1, d2 = case
    st = crys.Structure(coords_frac=co.gen_frac(2), cell=co.CELLS[c], symbols=['H', 'O'])
    a = crys.scell(crys.scell(st, d1), d2)
    b = crys.scell(st, [x * y for x, y in zip(d1, d2)])
    assert_close(a.cell, b.cell, 'cell')
    key = lambda s: sorted((sy,) + tuple(np.round(x, 6) + 0.0) for sy, x in zip(s.symbols, s.coords))
    ka, kb = key(a), key(b)
    check([k[0] for k in ka] == [k[0] for k in kb], 'symbols')
    assert_close([k[1:] for k in ka], [k[1:] for k in kb], 'images', 1e-5, 1e-5)
