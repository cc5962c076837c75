"""P15: periodic wrapping, minimum image distances, angles."""
import ctypes, itertools, math
import numpy as np
from mc import *
import co, omprace
from pwtools import crys, num

chk = Check('P15', level='exploration',
    rule='All pairs of positions of a fractional grid (inside, outside, on the faces) in every cell of the set, pbc on/off, every routine, 1..4 threads; every wrap mask/axis; the OpenMP kernel is rebuilt with ThreadSanitizer and a pthread runtime and has no unordered conflicting accesses, i.e. all thread interleavings are equivalent to the explored one. Non-trivial: the positions differ.',
    assumptions=['distances are compared with the image search when the true distance is below rmax_smith, otherwise only that they belong to some image and are not smaller', 'symmetry is required below rmax_smith', 'wrapped coordinates may be 1.0 exactly for tiny negative input (documented range [0,1])'])

VALS = [-2.3, -1.0, -0.75, -0.5, -1e-18, 0.0, 0.25, 0.5, 0.999, 1.0, 1.5, 7.75]

# ---- wrapping -------------------------------------------------------------
def gen_wrap(tier):
    for mask in itertools.product([True, False], repeat=3):
        for nd in (2, 3):
            for ax in range(-nd, nd):
                yield [list(mask), nd, ax]

@chk.group(gen_wrap)
def wrap_coords(case, ctx):
    mask, nd, ax = case
    base = np.array(list(itertools.product(VALS[::2], VALS[1::2], VALS[::3])))
    x = base if nd == 2 else np.array([base, base[::-1] + 0.125])
    x = np.moveaxis(x, -1, ax).copy()
    fr = freeze(x)
    got = crys.pbc_wrap_coords(x, mask=mask, xyz_axis=ax)
    check(freeze(x) == fr, 'argument changed with copy=True')
    g, o = np.moveaxis(got, ax, -1), np.moveaxis(x, ax, -1)
    for k in range(3):
        if mask[k]:
            check((g[..., k] >= 0).all() and (g[..., k] <= 1).all(), 'not wrapped into the cell')
            d = g[..., k] - o[..., k]
            assert_close(d, np.round(d), 'moved by a fraction of a cell vector', 0, 1e-12)
            inside = (o[..., k] >= 0) & (o[..., k] < 1)
            assert_equal(g[..., k][inside], o[..., k][inside], 'inside atoms moved')
        else:
            assert_equal(g[..., k], o[..., k], 'masked direction changed')
    if all(mask):
        assert_equal(crys.pbc_wrap_coords(x, xyz_axis=ax), got, 'default mask')
        if ax == -1:
            assert_equal(crys.pbc_wrap_coords(x), got, 'defaults')
    y = x.copy()
    r = crys.pbc_wrap_coords(y, mask=mask, xyz_axis=ax, copy=False)
    assert_equal(y, got, 'copy=False is in place'); assert_equal(r, got, 'copy=False result')
    ctx.eval(2)

def mkstruct(frac, cell, sy=None, traj=False, **kw):
    n = len(frac) if not traj else frac.shape[1]
    sy = sy or [['H', 'O', 'Al', 'N'][i % 4] for i in range(n)]
    return (crys.Trajectory if traj else crys.Structure)(coords_frac=frac, cell=cell, symbols=sy, **kw)

def gen_wrapobj(tier):
    for c in co.CELLS:
        for kind in ('struct', 'traj', 'vc'):
            for mask in itertools.product([True, False], repeat=3):
                for copy in (True, False):
                    for lazy in ('coords_frac', 'coords'):
                        yield [c, kind, list(mask), copy, lazy]

@chk.group(gen_wrapobj)
def wrap_object(case, ctx):
    c, kind, mask, copy, which = case
    cell = co.CELLS[c]
    f = co.gen_frac(3, 1, -2.3, 3.1)
    if kind != 'struct':
        f = np.array([f, f[::-1] * 1.7, f + 0.4])
    cl = cell if kind != 'vc' else np.array([cell, cell * 1.1, cell * [[1, 1, 1.2]]])
    cart = f.dot(cell) if kind != 'vc' else np.array([a.dot(b) for a, b in zip(f, cl)])
    C = crys.Structure if kind == 'struct' else crys.Trajectory
    kw = {which: f if which == 'coords_frac' else cart}
    forces = co.gen_arr(f.shape, 5)
    st = C(cell=cl, symbols=['H', 'O', 'H'], forces=forces, **kw)
    fr = freeze(st)
    out = crys.pbc_wrap(st, copy=copy, mask=mask)
    if copy:
        check(freeze(st) == fr, 'pbc_wrap(copy=True) changed its argument')
    else:
        check(out is st, 'in place')
    m = np.array(mask)
    d = out.coords_frac - f
    assert_close(d, np.round(d), 'moved by a fraction of a cell', 0, 1e-9)
    assert_close(d[..., ~m], np.zeros_like(d[..., ~m]), 'masked direction moved')
    check((out.coords_frac[..., m] >= 0).all() and (out.coords_frac[..., m] <= 1).all(), 'outside')
    want = out.coords_frac.dot(cell) if kind != 'vc' else np.array([a.dot(b) for a, b in zip(out.coords_frac, cl)])
    assert_close(out.coords, want, 'coords and coords_frac disagree', 1e-8, 1e-8)
    assert_equal(out.forces, forces, 'forces'); check(out.symbols == ['H', 'O', 'H'], 'symbols')

@chk.group(lambda tier: [[c, k, i] for c in co.CELLS for k in ('struct', 'traj') for i in (0, 1, 2, -1)])
def center(case, ctx):
    c, kind, i = case
    f = co.gen_frac(3, 2)
    if kind == 'traj':
        f = np.array([f, f * 1.3])
    st = mkstruct(f, co.CELLS[c], traj=kind == 'traj')
    fr = freeze(st)
    o = crys.center_on_atom(st, idx=i)
    check(freeze(st) == fr, 'argument changed')
    assert_close(o.coords_frac, f - f[..., i, :][..., None, :] + 0.5, 'center_on_atom')
    assert_close(o.coords, o.coords_frac.dot(co.CELLS[c]), 'coords')
    o2 = crys.center_on_atom(st, idx=i, copy=False)
    check(o2 is st, 'in place'); assert_close(st.coords_frac, o.coords_frac, 'in place'); assert_close(st.coords, o.coords, 'in place')

# ---- minimum image ------------------------------------------------------------
@chk.group(lambda tier: [[n, copy] for n in (1, 2, 3, 4) for copy in (True, False)])
def min_image(case, ctx):
    nd, copy = case
    v = np.array(sorted(set([a - b for a in VALS for b in VALS])))
    n = len(v) // 6 * 6
    x = v[:n].reshape({1: (n,), 2: (-1, 6), 3: (-1, 2, 3), 4: (-1, 1, 2, 3)}[nd])
    y = x.copy()
    got = crys.min_image_convention(y, copy=copy)
    if copy:
        assert_equal(y, x, 'argument changed')
    else:
        check(got is y or np.shares_memory(got, y), 'in place')
    check((got >= -0.5).all() and (got <= 0.5).all(), 'not a minimum image')
    d = got - x
    assert_close(d, np.round(d), 'not a whole number of cells', 0, 1e-12)

def images(dv, cell, r=2):
    """shortest image of the cartesian vector for fractional difference dv"""
    best = None
    base = dv - np.round(dv)
    for n in itertools.product(range(-r, r + 1), repeat=3):
        v = (base + n).dot(cell)
        l = math.sqrt(v.dot(v))
        if best is None or l < best:
            best = l
    return best

def gen_dist(tier):
    g = [-1.25, 0.0, 0.3, 0.5, 0.85] if tier == 'quick' else [-1.25, -0.4, 0.0, 0.25, 0.3, 0.5, 0.85, 1.0, 2.6]
    pts = list(itertools.product(g, repeat=3))
    for c in co.CELLS:
        for k in range(0, len(pts), 25):
            yield [c, g, k]

@chk.group(gen_dist)
def distances(case, ctx):
    c, g, k = case
    cell = co.CELLS[c]
    pts = np.array(list(itertools.product(g, repeat=3)))[k:k + 25]
    # two origins, so that pairs span all combinations of faces
    f = np.concatenate([pts, [[0., 0, 0], [0.5, 0.5, 0.5], [0.1, 0.93, -0.37]]])
    n = len(f)
    st = mkstruct(f, cell)
    rs = crys.rmax_smith(cell)
    V = co.volume(cell)
    widths = [V / np.linalg.norm(np.cross(cell[(i + 1) % 3], cell[(i + 2) % 3])) for i in range(3)]
    assert_close(rs, 0.5 * min(widths), 'rmax_smith')
    fr = freeze(st)
    cart = co.f2c(f, cell)
    d0, v0, s0 = crys.distances(st, pbc=False, fullout=True)
    d1, v1, s1 = crys.distances(st, pbc=True, fullout=True)
    check(freeze(st) == fr, 'argument changed')
    assert_close(s0, f[:, None] - f[None], 'fractional vectors', 0, 1e-12)
    assert_close(v0, cart[:, None] - cart[None], 'cartesian vectors', 0, 1e-9)
    assert_close(d0, np.sqrt(((cart[:, None] - cart[None]) ** 2).sum(-1)), 'distances without pbc', 0, 1e-9)
    dd = s1 - s0
    assert_close(dd, np.round(dd), 'pbc vector is not an image', 0, 1e-9)
    check((np.abs(s1) <= 0.5 + 1e-12).all(), 'not the minimum image')
    assert_close(v1, np.einsum('ijk,kl->ijl', s1, cell), 'pbc cartesian vectors', 0, 1e-9)
    assert_close(d1, np.sqrt((v1 ** 2).sum(-1)), 'pbc distances and vectors', 0, 1e-9)
    for i in range(n):
        for j in range(i, n):
            true = images(f[i] - f[j], cell)
            if true < rs - 1e-9:
                check(abs(d1[i, j] - true) < 1e-8 and abs(d1[j, i] - true) < 1e-8, lambda: 'cell %s %s %s: distance %s, shortest image %s' % (c, f[i], f[j], d1[i, j], true))
            else:
                check(d1[i, j] > true - 1e-8 and d1[j, i] > true - 1e-8, lambda: 'distance shorter than the shortest image')
            ctx.eval()
    for pbc, d in ((False, d0), (True, d1)):
        assert_close(crys.distances(st, pbc=pbc, squared=True), d ** 2, 'squared', 1e-9)
        assert_close(crys.distances(st, pbc=pbc), d, 'fullout=False', 1e-12)
        sq = crys.distances(st, pbc=pbc, squared=True, fullout=True)
        assert_close(sq[0], d ** 2, 'squared, fullout', 1e-9)
    # numpy route
    sij = crys.min_image_convention(f[:, None, :] - f[None, :, :])
    same = np.abs(np.abs(sij) - 0.5).min(-1) > 1e-9
    assert_close(np.sqrt((sij.dot(cell) ** 2).sum(-1))[same], d1[same], 'numpy and compiled route', 0, 1e-9)

def setthreads(n):
    lib = ctypes.CDLL('libgomp.so.1')
    lib.omp_set_dynamic(0)
    lib.omp_set_num_threads(n)

def gen_traj(tier):
    for c in co.CELLS:
        for n in ((1, 3) if tier == 'quick' else (1, 2, 3, 4)):
            for nstep in (1, 2, 3, 5, 8):
                for nthr in (1, 2, 3, 4):
                    yield [c, n, nstep, nthr]

@chk.group(gen_traj)
def trajectory(case, ctx):
    c, n, nstep, nthr = case
    f = co.gen_frac(n * nstep, 4, -1.2, 2.3).reshape(nstep, n, 3)
    cell = co.vcells(co.CELLS[c], nstep)
    tr = mkstruct(f, cell, traj=True)
    fr = freeze(tr)
    setthreads(nthr)
    try:
        for pbc in (False, True):
            d = crys.distances_traj(tr, pbc=pbc)
            check(d.shape == (nstep, n, n), 'shape')
            for i in range(nstep):
                s = f[i][:, None] - f[i][None]
                if pbc:
                    s = (s + 0.5) % 1.0 - 0.5
                assert_close(d[i], np.sqrt((s.dot(cell[i]) ** 2).sum(-1)), 'distances_traj step %i pbc %s threads %i' % (i, pbc, nthr), 0, 1e-9)
                assert_close(d[i], crys.distances(tr[i], pbc=pbc), 'distances_traj and distances', 0, 1e-9)
                ctx.eval()
    finally:
        setthreads(1)
    check(freeze(tr) == fr, 'argument changed')
    if n == 1:
        ctx.trivial()

# ---- angles -------------------------------------------------------------------
def gen_ang(tier):
    for c in co.CELLS:
        for n in (1, 2, 3, 4):
            for geo in ('gen', 'line', 'square'):
                yield [c, n, geo]

@chk.group(gen_ang)
def angles(case, ctx):
    c, n, geo = case
    cell = co.CELLS[c]
    if geo == 'gen':
        f = co.gen_frac(n, 3, -0.7, 1.8)
    elif geo == 'line':
        f = np.outer(np.arange(n), [0.11, 0.07, 0.05]) + 0.1
    else:
        f = np.array([[0, 0, 0], [.2, 0, 0], [.2, .2, 0], [0, .2, 0.]])[:n] + 0.05
    st = mkstruct(f, cell)
    for pbc in (False, True):
        d, v, s = crys.distances(st, pbc=pbc, fullout=True)
        for deg in (True, False):
            for mv in (999.0, -5.0):
                a = crys.angles(st, pbc=pbc, deg=deg, mask_val=mv)
                for i, j, k in itertools.product(range(n), repeat=3):
                    if len(set((i, j, k))) < 3:
                        check(a[i, j, k] == mv, 'mask value')
                    else:
                        vj, vk = [(f[x] - f[i]) for x in (j, k)]
                        if pbc:
                            vj, vk = [(x + 0.5) % 1.0 - 0.5 for x in (vj, vk)]
                        vj, vk = vj.dot(cell), vk.dot(cell)
                        cs = vj.dot(vk) / math.sqrt(vj.dot(vj)) / math.sqrt(vk.dot(vk))
                        w = math.degrees(math.acos(max(-1, min(1, cs)))) if deg else cs
                        check(abs(a[i, j, k] - w) < 2e-5, lambda: 'angle %s: %s expected %s' % ((i, j, k), a[i, j, k], w))
                        ctx.eval()
    for mv, dg in ((90.0, True), (0.0, True), (180.0, True), (0.0, False), (-1.0, False), (1.0, False)):
        check(raises(lambda: crys.angles(st, mask_val=mv, deg=dg), AssertionError) is not None, 'ambiguous mask value %r accepted' % mv)
    if n < 3:
        ctx.trivial()

@chk.group(lambda tier: [[a, b, d] for a in (1, 2, 5) for b in (1, 3, 4) for d in (1, 2, 3)])
def distsq(case, ctx):
    a, b, d = case
    x, y = co.gen_arr((a, d), 1, -3, 3), co.gen_arr((b, d), 2, -3, 3)
    want = [[sum((x[i, k] - y[j, k]) ** 2 for k in range(d)) for j in range(b)] for i in range(a)]
    for nthr in (1, 2, 3, 4):
        setthreads(nthr)
        for X, Y in ((x, y), (np.asfortranarray(x), np.asfortranarray(y))):
            fr = freeze([X, Y])
            assert_close(num.distsq(X, Y), want, 'distsq, %i threads' % nthr)
            check(freeze([X, Y]) == fr, 'argument changed')
        ctx.eval()
    setthreads(1)

SCRIPT = r'''
from pwtools import crys, num
def frac(n, m):
    k = np.arange(1, 3*n*m + 1); return (((np.sqrt(2)*k + k*k*0.31) % 1) * 3 - 1).reshape(n, m, 3)
import ctypes, os
lib = ctypes.CDLL(_flib.__file__)
bad = 0
for nstep in (1, 2, 3, 5, 8):
    for nat in (1, 2, 3):
        ref = None
        for nthr in (1, 2, 3, 4):
            lib.omp_set_num_threads(nthr)
            cell = np.array([np.identity(3) * (3 + i) + 0.2 for i in range(nstep)])
            tr = crys.Trajectory(coords_frac=frac(nstep, nat), cell=cell, symbols=['H'] * nat)
            d = [crys.distances_traj(tr, pbc=p) for p in (False, True)]
            d.append(num.distsq(frac(nstep, nat)[0], frac(nstep, nat + 1)[-1]))
            if ref is not None:
                bad += not all(np.array_equal(a, b) for a, b in zip(d, ref))
            ref = d
print('ALLOK' if not bad else 'results differ between numbers of threads')
'''

@chk.group(lambda tier: [['race analysis']])
def interleavings(case, ctx):
    omprace.require(omprace.run(ctx.tmp(), SCRIPT), ctx, 'distances_traj')
