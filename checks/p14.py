"""P14: cell and coordinate conversions."""
import itertools, math
import numpy as np
from mc import *
import co
from pwtools import crys, pwscf, num

chk = Check('P14', level='exploration',
    rule='Every cell of a complete grid of lengths x valid angles x orientations (incl. left-handed), every Bravais index over a parameter grid, every array rank/axis/coordinate-system pair of the transform, the complete basis of stress tensors. Non-trivial: every case.',
    assumptions=['coordinate systems are linearly independent', 'plain-python formulas from the definitions are the oracle', 'linearity of the transform in the coordinates is used'])

ROT = {'id': np.identity(3), 'r1': co.rot(20, 35, 110), 'r2': co.rot(90, 0, 0), 'r3': co.rot(-170, 80, 5)}
PERM = {'none': [0, 1, 2], 'swap': [1, 0, 2]}

def valid(al, be, ga):
    ca, cb, cg = [math.cos(math.radians(x)) for x in (al, be, ga)]
    return 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg > 0.05

def cc_grid(tier):
    ls = [3.1, 4.0, 5.7]
    an = [60., 75., 90., 103.5, 120.] if tier == 'quick' else [35., 50., 60., 75., 90., 103.5, 120., 140.]
    for l in itertools.product(ls, repeat=3):
        for a in itertools.product(an, repeat=3):
            if valid(*a):
                yield list(l) + list(a)

def gen_cells(tier):
    # one case per angle triple; the lengths are looped inside
    seen = set()
    for cc in cc_grid(tier):
        if tuple(cc[3:]) not in seen:
            seen.add(tuple(cc[3:]))
            yield cc[3:]

@chk.group(gen_cells)
def cells(case, ctx):
    for l in itertools.product([3.1, 4.0, 5.7], repeat=3):
        cc = np.array(list(l) + list(case))
        cell = crys.cc2cell(cc)
        assert_close(cell, co.cc2cell(cc), 'cc2cell %s' % cc)
        check(cell[0, 1] == 0 and cell[0, 2] == 0 and cell[1, 2] == 0, 'orientation convention')
        assert_close(crys.cc2cell(list(cc)), cell, 'list input')
        for rn, r in ROT.items():
            for pn, p in PERM.items():
                cl = cell.dot(r.T)[p]
                what = 'cc %s rotation %s order %s' % (cc, rn, pn)
                want = co.cell2cc(cl)
                vol = co.volume(cl)
                got = crys.cell2cc(cl)
                assert_close(got, want, 'cell2cc ' + what, 1e-8, 1e-8)
                assert_close(crys.volume_cell(cl), vol, 'volume_cell ' + what, 1e-8)
                assert_close(crys.volume_cell(cl.T.copy()), vol, 'volume_cell of columns ' + what, 1e-8)
                assert_close(crys.volume_cc(got), vol, 'volume_cc ' + what, 1e-7)
                assert_close(crys.cell2cc(crys.cc2cell(got)), got, 'cell2cc(cc2cell) ' + what, 1e-7, 1e-7)
                rc = crys.recip_cell(cl)
                assert_close(rc.dot(cl.T), 2 * math.pi * np.identity(3), 'recip_cell ' + what, 1e-8, 1e-8)
                assert_close(crys.recip_cell(rc), cl, 'recip_cell twice ' + what, 1e-8, 1e-8)
                for fac in (1.0, 1 / 0.529177, 2.5):
                    dm = crys.cc2celldm(got, fac=fac)
                    assert_close(dm, [want[0] * fac, want[1] / want[0], want[2] / want[0]] +
                                 [math.cos(math.radians(x)) for x in want[3:]], 'cc2celldm ' + what, 1e-8, 1e-8)
                    assert_close(crys.celldm2cc(dm, fac=1 / fac), want, 'celldm2cc ' + what, 1e-7, 1e-7)
                ctx.eval()
        assert_close(crys.angle(cell[0], cell[1]), cc[5], 'angle')

def gen_angle(tier):
    for d in seqs((-2, -1, 0, 1, 3), 3, 3):
        if any(d):
            yield list(d)

@chk.group(gen_angle)
def angles(case, ctx):
    """any two vectors, also (anti)parallel ones of all lengths"""
    for sc in (1.0, 1 / 3, 0.1, math.pi, 1e-3, 7e4):
        x = np.array(case, dtype=float) * sc
        for f in (1.0, 0.7, 1 / 3, 13.7):
            check(abs(crys.angle(x, f * x)) < 3e-6, 'parallel %r' % (case,))
            check(abs(crys.angle(x, -f * x) - 180) < 3e-6, 'antiparallel %r' % (case,))
        for o in ((0, 0, 1), (1, 2, 0), (-1, .5, 2), (0.1, .1, .1)):
            c = sum(a * b for a, b in zip(x, o)) / math.sqrt(sum(a * a for a in x)) / math.sqrt(sum(b * b for b in o))
            want = math.degrees(math.acos(max(-1.0, min(1.0, c))))
            check(abs(crys.angle(x, np.array(o, float)) - want) < 1e-5, 'angle %r %r' % (case, o))
        ctx.eval(1)

def gen_3d(tier):
    for n in (1, 2, 3):
        for axis in (0, 1, 2, -1, -2, -3):
            yield [n, axis]

@chk.group(gen_3d)
def trajectory_variants(case, ctx):
    n, axis = case
    names = list(co.CELLS)
    for start in range(len(names)):
        cs = [co.CELLS[names[(start + i) % len(names)]] for i in range(n)]
        arr = np.stack(cs, axis=axis)
        fr = freeze(arr)
        assert_close(crys.volume_cell3d(arr, axis=axis), [co.volume(c) for c in cs], 'volume_cell3d')
        assert_close(crys.cell2cc3d(arr, axis=axis), [co.cell2cc(c) for c in cs], 'cell2cc3d', 1e-8, 1e-6)
        if axis == 0:
            assert_close(crys.volume_cell3d(arr), [co.volume(c) for c in cs], 'volume_cell3d default')
            assert_close(crys.cell2cc3d(arr), [co.cell2cc(c) for c in cs], 'cell2cc3d default', 1e-8, 1e-6)
        if axis in (0, 1, -1, -2):
            ccs = [co.cell2cc(c) for c in cs]
            a2 = np.stack(ccs, axis=axis)
            assert_close(crys.volume_cc3d(a2, axis=axis), [co.volume(c) for c in cs], 'volume_cc3d', 1e-6)
            assert_close(crys.cc2cell3d(a2, axis=axis), [co.cc2cell(c) for c in ccs], 'cc2cell3d')
            if axis == 0:
                assert_close(crys.volume_cc3d(a2), [co.volume(c) for c in cs], 'volume_cc3d default', 1e-6)
                assert_close(crys.cc2cell3d(a2), [co.cc2cell(c) for c in ccs], 'cc2cell3d default')
        check(freeze(arr) == fr, 'argument changed')
        ctx.eval(4)

# ---- coordinate transform -------------------------------------------------
unit = lambda c: c / np.sqrt((c ** 2).sum(1))[:, None]
SYS = dict(co.CELLS, I=np.identity(3), left=co.CELLS['tri'][[1, 0, 2]], unit=unit(co.CELLS['rottri']), orth=co.rot(20, 35, 110), orthlen=np.diag([1.5, 1, 2.]).dot(co.rot(20, 35, 110)),
           det1=co.CELLS['mono'] / co.volume(co.CELLS['mono']) ** (1 / 3.), sym=np.array([[2., .3, .4], [.3, 1., -.2], [.4, -.2, 1.5]]), perm=np.identity(3)[[1, 2, 0]])
SYS2 = {'I': np.identity(2), 'X': np.sqrt(2) / 2 * np.array([[1, 1], [-1, 1.]]), 'Y': np.array([[1, 0], [1, 1.]]), 'g': np.array([[1.2, 0.3], [-0.4, 2.]]), 'unit': np.array([[1, 0], [.6, .8]])}

def naive_trans(coords, old, new, axis):
    """components c_j with sum_j c_j new_j = sum_i coords_i old_i"""
    M = len(old)
    c = np.moveaxis(np.asarray(coords, dtype=float), axis, -1)
    out = np.empty(c.shape)
    for idx in itertools.product(*[range(k) for k in c.shape[:-1]]):
        cart = [sum(c[idx][i] * old[i][k] for i in range(M)) for k in range(M)]
        out[idx] = np.linalg.solve(np.array(new).T, cart)
    return np.moveaxis(out, -1, axis)

def gen_trans(tier):
    mx = 3 if tier == 'quick' else 4
    for M, S in ((3, SYS), (2, SYS2)):
        for nd in range(1, mx + 1):
            for ax in range(-nd, nd):
                for o in S:
                    yield [M, nd, ax, o]

@chk.group(gen_trans)
def transform(case, ctx):
    M, nd, ax, o = case
    S = SYS if M == 3 else SYS2
    rest = [2, 3, 1][:nd - 1]
    shapes = [list(rest)]
    if nd >= 2:
        shapes.append([M] * (nd - 1))       # ambiguous shapes
    for sh in shapes:
        sh = list(sh)
        sh.insert(ax if ax >= 0 else nd + ax, M)
        for n in S:
            old, new = S[o], S[n]
            kw = {} if ax == -1 else dict(axis=ax)
            x = co.gen_arr(sh, 3, -2, 2)
            fr = freeze([x, old, new])
            want = naive_trans(x, old, new, ax)
            what = '%s -> %s shape %s axis %s' % (o, n, sh, ax)
            got = crys.coord_trans(x, old=old, new=new, **kw)
            assert_close(got, want, what, 1e-9, 1e-9)
            check(freeze([x, old, new]) == fr, what + ': argument changed')
            assert_close(crys.coord_trans(got, old=new, new=old, **kw), x, what + ' and back', 1e-8, 1e-8)
            y = x.copy()
            r = crys.coord_trans(y, old=old, new=new, copy=False, **kw)
            assert_close(r, want, what + ' copy=False'); assert_close(y, want, what + ' copy=False in place')
            xi = (x * 3).astype(int)
            assert_close(crys.coord_trans(xi, old=old, new=new, **kw), naive_trans(xi, old, new, ax), what + ' integer coordinates')
            ctx.eval(4)

def gen_trans3(tier):
    for nstep in (1, 2, 3):
        for nat in (1, 2, 3):
            for timeaxis in (0, 1, 2, -1, -2, -3):
                for ax in (0, 1, -1, -2):
                    yield [nstep, nat, timeaxis, ax]

@chk.group(gen_trans3)
def transform3d(case, ctx):
    nstep, nat, ta, ax = case
    names = list(SYS)
    for s in range(0, len(names), 3):
        olds = [SYS[names[(s + i) % len(names)]] for i in range(nstep)]
        news = [SYS[names[(s + 2 * i + 1) % len(names)]] for i in range(nstep)]
        x = co.gen_arr((nstep, nat, 3) if ax in (1, -1) else (nstep, 3, nat), s)
        want = np.array([naive_trans(x[i], olds[i], news[i], ax) for i in range(nstep)])
        mv = lambda a: np.moveaxis(np.asarray(a), 0, ta).copy()
        X, O, N = mv(x), mv(olds), mv(news)
        fr = freeze([X, O, N])
        got = crys.coord_trans3d(X, old=O, new=N, axis=ax, timeaxis=ta)
        what = 'nstep %s natoms %s timeaxis %s axis %s' % (nstep, nat, ta, ax)
        assert_close(got, mv(want), what)
        check(freeze([X, O, N]) == fr, what + ': argument changed')
        assert_close(crys.coord_trans3d(got, old=N, new=O, axis=ax, timeaxis=ta), X, what + ' and back', 1e-8, 1e-8)
        if ta == 0 and ax == -1:
            assert_close(crys.coord_trans3d(X, old=O, new=N), mv(want), what + ' defaults')
            if nstep == 1:
                assert_close(crys.coord_trans(X, old=O[0], new=N[0]), mv(want), '2d and 3d forms differ')
        ctx.eval(2)

@chk.group(lambda tier: [[3, [3, 3], [2, 2]], [3, [3, 2], [3, 2]], [2, [3, 3], [3, 3]], [4, [3, 3], [3, 3]], [3, [3], [3]]])
def refused(case, ctx):
    M, so, sn = case
    x = np.ones((4, M))
    old = np.eye(*so) if len(so) == 2 else np.ones(so)
    new = np.eye(*sn) if len(sn) == 2 else np.ones(sn)
    check(raises(lambda: crys.coord_trans(x, old=old, new=new)) is not None, 'non-fitting coordinate systems accepted')

# ---- Bravais ----------------------------------------------------------------
def conv_lattice(ib, a, b, c, ca, cb, cg):
    """conventional cell rows + centering vectors (fractional)"""
    sg = math.sqrt(1 - cg * cg)
    P = [[0, 0, 0]]
    F = [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
    I = [[0, 0, 0], [.5, .5, .5]]
    D = np.diag
    if ib in (1, 2, 3):
        return D([a, a, a]), {1: P, 2: F, 3: I}[ib]
    if ib == 4:
        return co.cc2cell([a, a, c, 90, 90, 120]), P
    if ib in (6, 7):
        return D([a, a, c]), {6: P, 7: I}[ib]
    if ib in (8, 9, 10, 11):
        return D([a, b, c]), {8: P, 9: [[0, 0, 0], [.5, .5, 0]], 10: F, 11: I}[ib]
    if ib == 12:
        return np.array([[a, 0, 0], [b * cg, b * sg, 0], [0, 0, c]]), P
    if ib == 13:
        return np.array([[a, 0, 0], [b * cg, b * sg, 0], [0, 0, c]]), [[0, 0, 0], [.5, 0, .5]]
    if ib == 14:
        d = lambda x: math.degrees(math.acos(x))
        return co.cc2cell([a, b, c, d(ca), d(cb), d(cg)]), P

NEED = {1: [], 2: [], 3: [], 4: [2], 5: [3], 6: [2], 7: [2], 8: [1, 2], 9: [1, 2], 10: [1, 2], 11: [1, 2], 12: [1, 2, 5], 13: [1, 2, 5], 14: [1, 2, 3, 4, 5]}
def gen_ibrav(tier):
    cosv = [-0.2, 0.0, 0.3] if tier == 'quick' else [-0.4, -0.2, 0.0, 0.1, 0.3]
    rat = [0.8, 1.0, 1.7]
    for ib, need in NEED.items():
        vals = [[2.0, 5.3]] + [[None] if i not in need else (rat if i < 3 else cosv) for i in range(1, 6)]
        for dm in itertools.product(*vals):
            yield [ib, list(dm)]

@chk.group(gen_ibrav)
def bravais(case, ctx):
    ib, dm = case
    cell = pwscf.ibrav2cell(ib, dm)
    check(cell.shape == (3, 3), 'shape')
    a = dm[0]
    if ib == 5:
        cc = co.cell2cc(cell)
        ang = math.degrees(math.acos(dm[3]))
        assert_close(cc, [a, a, a, ang, ang, ang], 'ibrav 5', 1e-7, 1e-7)
        ax = cell.sum(axis=0)
        assert_close(ax[:2], [0, 0], 'ibrav 5: threefold axis along z')
        return
    b = a * dm[1] if dm[1] is not None else a
    c = a * dm[2] if dm[2] is not None else a
    conv, cen = conv_lattice(ib, a, b, c, dm[3] or 0., dm[4] or 0., dm[5] or 0.)
    # same lattice: all generators of the one are integer combinations of the other
    gens = [np.array(v).dot(conv) for v in cen] + list(conv)
    k = np.array(gens).dot(np.linalg.inv(cell))
    check(np.abs(k - np.round(k)).max() < 1e-7, lambda: 'ibrav %s %s: lattice points missing from %s' % (ib, dm, cell))
    assert_close(co.volume(cell) * len(cen), co.volume(conv), 'ibrav %s: volume' % ib, 1e-8)
    if ib == 14:
        assert_close(cell, crys.cc2cell(crys.celldm2cc(dm)), 'ibrav 14')
    check(raises(lambda: pwscf.ibrav2cell(15, dm)) is not None and raises(lambda: pwscf.ibrav2cell(0, dm)) is not None, 'illegal ibrav')

# ---- stress ---------------------------------------------------------------
IJ = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
@chk.group(lambda tier: [[k] for k in range(8)])
def voigt(case, ctx):
    k = case[0]
    v = np.zeros(6)
    if k < 6:
        v[k] = 1.5
    else:
        v = co.gen_arr((6,), k)
    t = np.zeros((3, 3))
    for x, (i, j) in zip(v, IJ):
        t[i, j] = t[j, i] = x
    for inp in (v, list(v)):
        assert_equal(crys.voigt2tensor(inp), t, 'voigt2tensor')
    assert_equal(crys.tensor2voigt(t), v, 'tensor2voigt')
    for n in (1, 2, 3, 6):
        vv = np.array([v * (i + 1) for i in range(n)])
        tt = np.array([t * (i + 1) for i in range(n)])
        assert_equal(crys.voigt2tensor3d(vv), tt, 'voigt2tensor3d')
        assert_equal(crys.tensor2voigt3d(tt), vv, 'tensor2voigt3d')
        ctx.eval(2)
    for bad in (np.ones(5), np.ones(9)):
        check(raises(lambda: crys.voigt2tensor(bad)) is not None, 'accepted %s' % bad.shape)
    for bad in (np.ones((2, 3)), np.ones((6,)), np.ones((3, 3, 1))):
        check(raises(lambda: crys.tensor2voigt(bad)) is not None, 'accepted %s' % (bad.shape,))

# ---- rotations of a structure ------------------------------------------------
ANG = [0, 90, 35, -120, 180]
@chk.group(lambda tier: [[a, b] for a in ANG for b in ANG])
def rotation(case, ctx):
    a, b = case
    for c in ANG:
        for deg in (True, False):
            args = (a, b, c) if deg else tuple(math.radians(x) for x in (a, b, c))
            m = num.euler_matrix(*args, deg=deg)
            assert_close(m.dot(m.T), np.identity(3), 'euler_matrix orthogonal')
            assert_close(np.linalg.det(m), 1.0, 'euler_matrix proper')
        # definition (z-x'-z''): product of three elementary rotations
        ph, th, ps = [math.radians(x) for x in (a, b, c)]
        rz = lambda t: np.array([[math.cos(t), math.sin(t), 0], [-math.sin(t), math.cos(t), 0], [0, 0, 1]])
        rx = lambda t: np.array([[1, 0, 0], [0, math.cos(t), math.sin(t)], [0, -math.sin(t), math.cos(t)]])
        assert_close(num.euler_matrix(a, b, c, deg=True), rz(ps).dot(rx(th)).dot(rz(ph)), 'euler_matrix definition')
        st = crys.Structure(coords_frac=co.gen_frac(3), cell=co.CELLS['tri'], symbols=['H', 'O', 'H'])
        R = co.rot(a, b, c)
        st0 = freeze(st)
        for nm, kw in (('cart', dict(cart=R)), ('xy', dict(x=2.0 * R[0], y=0.5 * R[1])),
                       ('vecs', dict(vecs=np.array([[1., 2, 3], R[0] * 3 + [1, 2, 3], R[1] + [1, 2, 3]])))):
            new = crys.align_cart(st, **kw)
            check(freeze(st) == st0, 'align_cart changed its argument')
            assert_close(new.coords_frac, st.coords_frac, 'align_cart frac')
            # components in the new cartesian system
            assert_close(new.cell, [[sum(v[k] * R[i][k] for k in range(3)) for i in range(3)] for v in st.cell], 'align_cart %s cell' % nm)
            assert_close(new.coords, [[sum(v[k] * R[i][k] for k in range(3)) for i in range(3)] for v in st.coords], 'align_cart %s coords' % nm)
            assert_close(new.cryst_const, st.cryst_const, 'align_cart cryst_const', 1e-7, 1e-7)
            check(new.symbols == st.symbols, 'symbols')
        # atoms as reference + trajectory
        p = np.array([[1., 1, 1], R[0] * 2 + 1, R[1] * 3 + 1])
        sa = crys.Structure(coords=p, cell=co.CELLS['mono'], symbols=['H', 'O', 'H'])
        na = crys.align_cart(sa, indices=[0, 1, 2])
        assert_close(na.coords - na.coords[0], [[0, 0, 0], [2, 0, 0], [0, 3, 0]], 'align_cart indices')
        tr = crys.Trajectory(coords=np.array([p + 0.3, p * [1, 1, 1]]), cell=co.CELLS['mono'], symbols=['H', 'O', 'H'])
        for ti in (0, 1, -1):
            nt = crys.align_cart(tr, indices=[ti, 0, 1, 2])
            assert_close(nt.coords - nt.coords[:, :1], [[[0, 0, 0], [2, 0, 0], [0, 3, 0]]] * 2, 'align_cart trajectory')
            check(nt.is_traj and nt.nstep == 2, 'container')
        ctx.eval(3)
    check(raises(lambda: crys.align_cart(sa, x=np.array([1., 0, 0]), y=np.array([1., 1, 0]))) is not None, 'non-orthogonal axes accepted')
