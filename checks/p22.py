"""P22: array helpers against element loops."""
import itertools, math
import numpy as np
from mc import *
import co
from pwtools import num, crys

chk = Check('P22', level='exploration',
    rule='All shapes up to rank 4 with small sides x all axes (both signs), all subsets of axes in every order for sums, all slices of a bounded family for taking and putting, all integer arrays up to a length for mask matching, against explicit element loops. Non-trivial: more than one element.',
    assumptions=['rms3d: axis -1 to 2 as documented', 'match_mask without eps: integer arrays'])

SH = [(1,), (4,), (1, 3), (3, 2), (2, 3, 4), (3, 1, 2), (2, 2, 2, 3)]
IDX = [0, -1, 1]
SLS = [[None, None, None], [1, None, None], [None, -1, None], [None, None, 2], [None, None, -1], [0, 2, 1], [-2, None, None], [5, 9, None], [2, 0, -1], [1, 1, None]]

def arr(sh, dt):
    a = np.arange(1, int(np.prod(sh)) + 1).reshape(sh)
    if dt == 'c':
        return a * (1 + 2j)
    if dt == 'b':
        return a % 3 == 0
    return a.astype({'f': float, 'i': int}[dt])

def layouts(a):
    """C, Fortran, reversed view, strided view"""
    yield a.copy()
    yield np.asfortranarray(a)
    yield a[::-1].copy()[::-1]
    big = np.repeat(a, 2, axis=-1)
    yield big[..., ::2]

def loop_take(a, sl, axis):
    n = a.shape[axis]
    if isinstance(sl, int):
        return np.array([a[i] for i in [tuple(list(x[:axis]) + [sl] + list(x[axis:])) for x in np.ndindex(*(a.shape[:axis] + a.shape[axis + 1:]))]],
                        dtype=a.dtype).reshape(a.shape[:axis] + a.shape[axis + 1:])
    ids = list(range(n))[sl]
    sh = list(a.shape); sh[axis] = len(ids)
    out = np.empty(sh, dtype=a.dtype)
    for x in np.ndindex(*sh):
        y = list(x); y[axis] = ids[x[axis]]
        out[x] = a[tuple(y)]
    return out

def gen_take(tier):
    for sh in SH:
        for ax in range(-len(sh), len(sh)):
            for s in IDX + SLS:
                for dt in 'fic':
                    yield [list(sh), ax, s, dt]

@chk.group(gen_take)
def take_put(case, ctx):
    sh, ax, s, dt = case
    sl = s if isinstance(s, int) else slice(*s)
    p = ax % len(sh)
    ok = not isinstance(s, int) or -sh[p] <= s < sh[p]
    for a in layouts(arr(sh, dt)):
        ctx.eval()
        b = freeze(a)
        if not ok:
            check(raises(lambda: num.slicetake(a, sl, axis=ax)), 'index out of range accepted')
            check(raises(lambda: num.sliceput(a, 0, sl, axis=ax)), 'index out of range accepted')
            check(freeze(a) == b, 'argument changed')
            continue
        e = loop_take(a, sl, p)
        v = num.slicetake(a, sl, axis=ax)
        assert_equal(v, e, 'slicetake')
        check(not isinstance(v, np.ndarray) or v.size == 0 or np.shares_memory(v, a), 'a view is documented')
        c = num.slicetake(a, sl, axis=ax, copy=True)
        assert_equal(c, e, 'slicetake copy')
        check(not isinstance(c, np.ndarray) or not np.shares_memory(c, a), 'a copy is documented')
        full = [slice(None)] * len(sh)
        full[p] = sl
        assert_equal(num.slicetake(a, tuple(full)), e, 'slicetake tuple')
        assert_equal(num.slicetake(a, list(full)), e, 'slicetake list')
        check(freeze(a) == b, 'argument changed')
        # put
        for val in (e * 0 + 7, 5):
            for how in range(3):
                w = a.copy()
                r = num.sliceput(w, val, sl, axis=ax) if how == 0 else num.sliceput(w, val, tuple(full) if how == 1 else list(full))
                check(r is w, 'the modified array is returned')
                ids = [list(range(sh[p]))[sl]] if isinstance(sl, int) else list(range(sh[p]))[sl]
                x = np.array(a)
                for i in np.ndindex(*sh):
                    if i[p] in ids:
                        x[i] = 7 if not (isinstance(val, int) and val == 5) else 5
                assert_equal(w, x, 'sliceput')
        # put back what was taken
        w = a.copy() * 0
        num.sliceput(w, e, sl, axis=ax)
        assert_equal(num.slicetake(w, sl, axis=ax), e, 'put, then take')

def gen_ext(tier):
    for sh in SH:
        for ax in range(-1, len(sh) + 1):
            for n in (1, 2, 5):
                yield [list(sh), ax, n]

@chk.group(gen_ext)
def extend(case, ctx):
    sh, ax, n = case
    for dt in 'fi':
        for a in layouts(arr(sh, dt)):
            ctx.eval()
            b = freeze(a)
            g = num.extend_array(a, n, axis=ax)
            p = ax % (len(sh) + 1)
            es = list(sh[:p]) + [n] + list(sh[p:])
            check(list(g.shape) == es, lambda: 'shape %s' % (g.shape,))
            for i in np.ndindex(*es):
                check(g[i] == a[tuple(i[:p] + i[p + 1:])], 'element')
            check(freeze(a) == b and not np.shares_memory(g, a), 'argument')
    check(raises(lambda: num.extend_array(np.zeros(sh), n, axis=len(sh) + 1)), 'axis out of range')
    check(raises(lambda: num.extend_array(np.zeros(sh), n, axis=-2)), 'axis out of range')

def gen_sum(tier):
    for sh in SH:
        nd = len(sh)
        for k in range(0, nd + 1):
            for axs in itertools.permutations(range(nd), k):
                for signs in itertools.product((0, 1), repeat=k):
                    yield [list(sh), [a - nd if s else a for a, s in zip(axs, signs)]]

@chk.group(gen_sum)
def sums(case, ctx):
    sh, axs = case
    nd = len(sh)
    for dt in 'fi':
        for a in layouts(arr(sh, dt)):
            b = freeze(a)
            for keep in (False, True):
                ctx.eval()
                gone = [x % nd for x in axs]
                if keep:
                    gone = [x for x in range(nd) if x not in gone]
                rest = [x for x in range(nd) if x not in gone]
                e = np.zeros([sh[x] for x in rest])
                for i in np.ndindex(*sh):
                    e[tuple(i[x] for x in rest)] += a[i]
                forms = [tuple(axs), list(axs)] + ([axs[0]] if len(axs) == 1 else [])
                for f in forms:
                    g = num.sum(a, axis=f, keepdims=keep)
                    assert_equal(np.asarray(g, dtype=float), e, 'sum axis=%s keepdims=%s' % (f, keep))
                    g = num.sum(a, axis=f, keepdims=keep, dtype=complex)
                    if gone:
                        check(np.asarray(g).dtype == complex, 'keywords are passed on')
            check(freeze(a) == b, 'argument changed')
            if not axs:
                check(num.sum(a) == sum(float(x) for x in a.ravel()), 'total')
                check(raises(lambda: num.sum(a, keepdims=True)), 'keepdims without axis')
    for bad in (nd, -nd - 1):
        for f in (bad, (bad,), tuple(axs) + (bad,)):
            for keep in (False, True):
                check(raises(lambda: num.sum(np.zeros(sh), axis=f, keepdims=keep)), lambda: 'axis %s of a %id array accepted, keepdims=%s' % (f, nd, keep))
    if axs:
        for dup in ((axs[0], axs[0]), (axs[0], axs[0] % nd - nd, axs[0] % nd)):
            check(raises(lambda: num.sum(np.zeros(sh), axis=dup)), 'duplicate axis accepted')

def gen_rms(tier):
    for sh in SH + [(1, 1, 1), (5, 3, 2)]:
        for nit in ('all', 1, 2.5):
            yield [list(sh), nit]

@chk.group(gen_rms)
def rms(case, ctx):
    sh, nit = case
    for a in layouts(co.gen_arr(tuple(sh), 3)):
        s = math.fsum(float(x) ** 2 for x in a.ravel())
        n = a.size if nit == 'all' else nit
        assert_close(num.rms(a, nitems=nit), math.sqrt(s / n), 'rms', rtol=1e-12)
        if nit == 'all':
            assert_close(num.rms(a), math.sqrt(s / n), 'rms', rtol=1e-12)
        check(num.rms((a * 10).astype(int)) >= 0, 'integers')
        if len(sh) == 3:
            for ax in (-1, 0, 1, 2):
                ctx.eval()
                b = freeze(a)
                g = num.rms3d(a, axis=ax, nitems=nit)
                p = ax % 3
                e = []
                for i in range(sh[p]):
                    x = a.take(i, axis=p)
                    e.append(math.sqrt(math.fsum(float(v) ** 2 for v in x.ravel()) / (x.size if nit == 'all' else nit)))
                assert_close(g, e, 'rms3d axis %i' % ax, rtol=1e-12)
                check(freeze(a) == b, 'argument changed')
            assert_close(num.rms3d(a, nitems=nit), num.rms3d(a, axis=0, nitems=nit), 'default axis')
            check(raises(lambda: num.rms3d(a, axis=3)), 'axis out of range')
        else:
            check(raises(lambda: num.rms3d(a)), 'not 3d')

def gen_rmsd(tier):
    for n in range(1, 5 if tier == 'quick' else 8):
        for nat in (1, 2, 3):
            for var in (0, 1):
                yield [n, nat, var]

@chk.group(gen_rmsd)
def rmsd(case, ctx):
    """trajectories relative to each of their steps"""
    n, nat, var = case
    if var:
        cs = [c for k, c in sorted(co.CELLS.items())]
        cell = np.array([cs[i % len(cs)] for i in range(n)], dtype=float)
        tr = crys.Trajectory(coords_frac=co.gen_arr((n, nat, 3), 5), cell=cell, symbols=['Al', 'N', 'O'][:nat])
    else:
        tr = crys.Trajectory(coords=co.gen_arr((n, nat, 3), 4) * 3)
    c = tr.coords.copy()
    b = freeze(tr.coords)
    for ref in range(-n, n):
        ctx.eval()
        e = [math.sqrt(math.fsum(float(x) ** 2 for x in (c[i] - c[ref % n]).ravel()) / nat) for i in range(n)]
        g = crys.rmsd(tr, ref_idx=ref)
        assert_close(g, e, 'rmsd relative to step %i' % ref, rtol=1e-12, atol=1e-14)
        if ref == 0:
            assert_close(crys.rmsd(tr), e, 'rmsd, default', rtol=1e-12, atol=1e-14)
        check(freeze(tr.coords) == b, 'trajectory changed')
    for ref in (n, -n - 1):
        check(raises(lambda: crys.rmsd(tr, ref_idx=ref)), lambda: 'rmsd relative to step %i of %i accepted' % (ref, n))
    st = crys.Structure(coords=c[0], symbols=['Al', 'N', 'O'][:nat])
    check(raises(lambda: crys.rmsd(st)), 'rmsd of a structure')

# ---- matching -------------------------------------------------------------------
def gen_match(tier):
    L = 4
    for n in range(1, L + 1):
        for a in itertools.product(range(3), repeat=n):
            yield list(a)

@chk.group(gen_match)
def match(case, ctx):
    a = np.array(case)
    for m in range(1, 4):
        for v in itertools.product((-1, 0, 1, 2), repeat=m):
            ctx.eval()
            v = np.array(v)
            e = np.array([x in v for x in a])
            b = freeze([a, v])
            assert_equal(num.match_mask(a, v), e, 'mask %s' % v)
            r, idx = num.match_mask(a, v, fullout=True)
            assert_equal(r, e, 'mask')
            check(r.dtype == bool, 'dtype')
            assert_equal(np.asarray(idx), np.nonzero(e)[0], 'indices')
            r, idx = num.match_mask(a + 0.1, v, fullout=True, eps=0.2)
            assert_equal(r, e, 'mask with eps')
            assert_equal(num.match_mask(a + 0.1, v, eps=0.05), e & False, 'mask with small eps')
            check(freeze([a, v]) == b, 'arguments changed')
    check(raises(lambda: num.match_mask(np.zeros((2, 2)), a)), '2d array')

# ---- ordering ------------------------------------------------------------------
def ref_order(a, order):
    out = a.copy()
    for i in range(1, len(a)):
        for j in range(a.shape[1]):
            o = min(order, i - 1)
            y = [float(out[i - 1 - k, j]) for k in range(o + 1)]
            ref = y[0] if o == 0 else (2 * y[0] - y[1] if o == 1 else 3 * y[0] - 3 * y[1] + y[2])
            d = [abs(float(x) - ref) for x in a[i]]
            out[i, j] = a[i, d.index(min(d))]
    return out

def gen_order(tier):
    for n, m, order, rep, seed in itertools.product((1, 2, 3, 4, 6, 9), (1, 2, 3, 4), (0, 1, 2), (1, 2, 3), range(4 if tier == 'quick' else 20)):
        yield [n, m, order, rep, seed]

@chk.group(gen_order)
def order_similar(case, ctx):
    n, m, order, rep, seed = case
    a = co.gen_arr((n, m), seed)
    b = freeze(a)
    g = num.order_similar(a, repeat=rep, order=order)
    check(freeze(a) == b, 'argument changed')
    e = a
    for _ in range(rep):
        e = ref_order(e, order)
    assert_close(g, e, 'order_similar', rtol=0, atol=0)
    if order == 2 and rep == 1:
        assert_equal(num.order_similar(a), e, 'defaults')
    # parallel lines, shuffled in every row, are put back
    base = np.arange(m) * 10.0
    slope = np.array([[0.1 * i * [0, 1, 1][order] + 0.02 * i * i * (order == 2)] for i in range(n)])
    s = base[None, :] + slope
    x = s.copy()
    for i in range(1, n):
        x[i] = s[i][np.array([(j * [1, 1, 3][m % 3] + i * (seed + 1)) % m for j in range(m)])] if m != 3 else np.roll(s[i], i * (seed + 1))
        if sorted(x[i]) != sorted(s[i]):
            x[i] = np.roll(s[i], i)
    assert_close(num.order_similar(x, repeat=rep, order=order), s, 'separated streams', rtol=0, atol=1e-12)
    check(raises(lambda: num.order_similar(a, order=3)) and raises(lambda: num.order_similar(a, repeat=0)), 'bad options accepted')

# ---- small formulas ---------------------------------------------------------------
def gen_small(tier):
    for n in range(1, 8):
        for k in range(3):
            yield [n, k]

@chk.group(gen_small)
def formulas(case, ctx):
    n, k = case
    a, c = co.gen_arr((k + 1,), n), co.gen_arr((k + 1,), n + 9)
    b = freeze([a, c])
    for f, x, y in (('float', a, c), ('int', np.arange(k + 1), np.arange(k + 1) * 3 + 7)):
        for end in (True, False):
            d = (n - 1) if end else n
            e = np.array([[float(u) + (float(v) - float(u)) * i / max(d, 1) for u, v in zip(x, y)] for i in range(n)])
            assert_close(num.vlinspace(x, y, n, endpoint=end), e, 'vlinspace ' + f, rtol=1e-12, atol=1e-12)
        assert_close(num.vlinspace(x, y, n), num.vlinspace(x, y, n, endpoint=True), 'vlinspace default')
        if n > 1:
            assert_close(num.vlinspace(x, y, n)[-1], y, 'vlinspace last', rtol=1e-12, atol=1e-12)
    check(raises(lambda: num.vlinspace(a, np.zeros(k + 2), n)) and raises(lambda: num.vlinspace(a, c, 0)), 'vlinspace refused')
    assert_close(num.norm(a), math.sqrt(sum(float(x) ** 2 for x in a)), 'norm', rtol=1e-12)
    check(raises(lambda: num.norm(np.zeros((2, 2)))), 'norm of 2d')
    z = np.abs(a) + 0.1
    assert_close(num.normalize(z), [x / max(z) for x in z], 'normalize')
    X, Y = num.meshgridt(a, np.arange(n))
    check(X.shape == Y.shape == (k + 1, n) and all(X[i, j] == a[i] and Y[i, j] == j for i in range(k + 1) for j in range(n)), 'meshgridt')
    # squared distances, all layouts
    for p, q in itertools.product(layouts(co.gen_arr((n, k + 1), 1)), layouts(co.gen_arr((k + 2, k + 1), 2))):
        ctx.eval()
        fb = freeze([p, q])
        e = [[sum((float(u) - float(v)) ** 2 for u, v in zip(r, s)) for s in q] for r in p]
        assert_close(num.distsq(p, q), e, 'distsq', rtol=1e-12, atol=1e-14)
        check(freeze([p, q]) == fb, 'arguments changed')
    pi, qi = np.arange(n * (k + 1)).reshape(n, k + 1), np.arange(2 * (k + 1)).reshape(2, k + 1) * 3
    assert_close(num.distsq(pi, qi), [[sum((int(u) - int(v)) ** 2 for u, v in zip(r, s)) for s in qi] for r in pi], 'distsq integers')
    check(raises(lambda: num.distsq(np.zeros((2, 3)), np.zeros((2, 2)))), 'distsq dimensions')
    # data on a grid
    ax = [np.arange(k + 1) * 1.5, np.arange(n) - 2.0, np.array([3.0, 7.0])]
    a2 = np.array([[x, y, w, 100 * i + 10 * j + l] for i, x in enumerate(ax[0]) for j, y in enumerate(ax[1]) for l, w in enumerate(ax[2])], dtype=float)
    nd = num.DataND(a2=a2)
    check(nd.an.shape == (k + 1, n, 2) and all(nd.an[i, j, l] == 100 * i + 10 * j + l for i, j, l in np.ndindex(k + 1, n, 2)), 'DataND')
    for u, v in zip(nd.axes, ax):
        assert_equal(u, v, 'DataND axes')
    check(raises(lambda: num.DataND(a2=a2[:-1])) or len(a2) == 2, 'incomplete grid')
    for dims in [(n,), (n, k + 1), (2, n, 1, k + 1), (1, 2, n, 2, k + 1)]:
        grid = [np.cumsum(co.gen_arr((d,), 7 + i) + 1.5) for i, d in enumerate(dims)]
        vals = co.gen_arr(dims, 3)
        nd = num.DataND(a2=np.array([[g[j] for g, j in zip(grid, ix)] + [vals[ix]] for ix in np.ndindex(*dims)]))
        assert_equal(nd.an, vals, 'DataND, %i axes' % len(dims))
        check(len(nd.axes) == len(dims), 'DataND axes')
        for u, v in zip(nd.axes, grid):
            assert_equal(u, v, 'DataND axes')
    for mult in (1, 2, 3, 7):
        for x in range(-5, 30):
            r = num.round_up_next_multiple(x, mult)
            check(r % mult == 0 and x <= r < x + mult, lambda: 'round_up_next_multiple(%i,%i)=%i' % (x, mult, r))
    # inner points
    m = num.inner_points_mask(np.arange(n + 2.0)[:, None])
    assert_equal(m, np.array([False] + [True] * n + [False]), 'inner points 1d')
    g = np.array([[i, j] for i in range(n + 2) for j in range(k + 3)], dtype=float)
    m = num.inner_points_mask(g)
    strict = np.array([0 < i < n + 1 and 0 < j < k + 2 for i, j in g])
    corner = np.array([i in (0, n + 1) and j in (0, k + 2) for i, j in g])
    check(m[strict].all() and not m[corner].any() and len(m) == len(g), 'inner points 2d')
    # normalised integrals
    x = np.linspace(0.5, 3.0 + k, 2 * n + 3)
    y = np.abs(co.gen_arr((2 * n + 3,), 3)) + 0.2
    from scipy.integrate import simpson, trapezoid
    for area, scale, (f, kw) in itertools.product((1.0, 7.5), (True, False), ((simpson, {}), (trapezoid, dict(func=trapezoid)))):
        for fx, fy in ((1, 1), (1e-12, 1e9)):
            g = num.norm_int(y * fy, x * fx, area=area, scale=scale, **kw)
            assert_close(f(g / fy * 1.0, x=x * 1.0) * fx * fy, area, 'norm_int', rtol=1e-9)
            assert_close(g / g.max(), y / y.max(), 'norm_int shape', rtol=1e-9)
            # values and axes of any sign, zero included
            for y2, x2 in ((-y, x), (y.min() - y, x), (y - y.min(), -x[::-1]), (-y, x - x[-1])):
                g = num.norm_int(y2 * fy, x2 * fx, area=area, scale=scale, **kw)
                assert_close(f(g / fy * 1.0, x=x2 * 1.0) * fx * fy, area, 'norm_int', rtol=1e-9)
                i = np.abs(y2).argmax()
                assert_close(g / g[i], y2 / y2[i], 'norm_int shape', rtol=1e-9, atol=1e-12)
    check(freeze([a, c]) == b, 'arguments changed')

def gen_euler(tier):
    A = (0.0, 30.0, 90.0, 200.0, 360.0, -45.0)
    for a, b, c in itertools.product(A, (0.0, 40.0, 90.0, 180.0, -70.0), A):
        yield [a, b, c]

@chk.group(gen_euler)
def euler(case, ctx):
    a, b, c = map(math.radians, case)
    g = num.euler_matrix(*case, deg=True)
    def R(t):
        return np.array([[math.cos(t), math.sin(t), 0], [-math.sin(t), math.cos(t), 0], [0, 0, 1]])
    C = np.array([[1, 0, 0], [0, math.cos(b), math.sin(b)], [0, -math.sin(b), math.cos(b)]])
    assert_close(g, R(c).dot(C).dot(R(a)), 'euler', rtol=1e-12, atol=1e-14)
    assert_close(num.euler_matrix(a, b, c), g, 'euler rad', rtol=1e-12, atol=1e-14)
    assert_close(g.dot(g.T), np.eye(3), 'orthogonal', atol=1e-12)
