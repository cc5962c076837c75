"""P23: polynomial and spline fits reproduce what they were fitted to."""
import itertools, math
import numpy as np
from mc import *
from pwtools import num, mpl
import co

chk = Check('P23', rule='Every case of every group (a basis of all polynomials of the degree, all option combinations, all derivative orders, all minimum and root positions of a grid) is fitted and evaluated with the real code and compared with the exact function. Non-trivial: degree at least 1.',
            assumptions=['points are distinct and well inside the range where the least-squares problem is well conditioned'])

RANGES = [(-1.0, 1.0), (0.0, 2.0), (-3.5, -1.0), (1.5, 4.0), (-0.5, 3.0)]

def axis(lo, hi, n):
    k = np.arange(n)
    return lo + (hi - lo) * (k + 0.15 * np.sin(3.0 * k)) / (n - 1)

def poly(cs, pts, der=0):
    """sum of c * prod x_i^p_i, or d^der/dx^der for 1d"""
    out = np.zeros(len(pts))
    for pw, c in cs:
        if der:
            p = pw[0]
            f = c
            for j in range(der):
                f *= p - j
            if p < der or f == 0:
                continue
            out += f * pts[:, 0] ** (p - der)
        else:
            t = c * np.ones(len(pts))
            for i, p in enumerate(pw):
                t = t * pts[:, i] ** p
            out += t
    return out

def gen_fit(tier):
    for nd, maxdeg in ((1, 6), (2, 3), (3, 2)) if tier == 'quick' else ((1, 8), (2, 4), (3, 3), (4, 2)):
        for deg in range(maxdeg + 1):
            for ri in range(len(RANGES)) if nd == 1 else (0, 2, 3):
                for extra in (1, 3):
                    for shuffle in (0, 1):
                        for opts in ((1, 0), (1, 1), (0, 0), (0, 1)):
                            yield [nd, deg, ri, extra, shuffle, list(opts)]

@chk.group(gen_fit)
def fits(case, ctx):
    nd, deg, ri, extra, shuffle, opts = case
    lo, hi = RANGES[ri]
    kw = dict(scale=bool(opts[0]), scale_vand=bool(opts[1]))
    if kw == dict(scale=True, scale_vand=False) and extra == 3:
        kw = {}      # defaults
    axes = [axis(lo + 0.1 * i, hi + 0.1 * i, deg + extra + 1) for i in range(nd)]
    pts = np.array(list(itertools.product(*axes)))
    if shuffle:
        pts = pts[np.argsort(np.sin(np.arange(len(pts)) * 7.0))]
    new = np.array(list(itertools.product(*[axis(lo + 0.1 * i + 0.07, hi + 0.1 * i - 0.05, 4) for i in range(nd)])))
    basis = list(itertools.product(range(deg + 1), repeat=nd))
    if deg == 0:
        ctx.trivial()
    for bi in range(len(basis) + 2):
        ctx.eval()
        if bi < len(basis):
            cs = [(basis[bi], 1.0 if bi % 2 else -2.5)]
        else:
            cs = [(p, math.sin(1 + 3 * k + bi)) for k, p in enumerate(basis)]
        y = poly(cs, pts)
        b = freeze([pts, y])
        tol = dict(rtol=1e-7, atol=1e-7 * (1 + abs(y).max()))
        f = num.PolyFit(pts, y, deg, **kw)
        ref = poly(cs, new)
        assert_close(f(new), ref, 'value', **tol)
        assert_close(f(pts), y, 'data', **tol)
        one = f(new[1])
        check(np.ndim(one) == 0, 'single point gives a scalar')
        assert_close(one, ref[1], 'single point', **tol)
        fit = num.polyfit(pts, y, deg, **kw)
        assert_equal(num.polyval(fit, new), f(new), 'polyval(polyfit) and PolyFit')
        if nd == 1:
            g = num.PolyFit1D(pts[:, 0], y, deg=deg, **kw)
            g2 = num.PolyFit1D(pts, y, deg=deg, **kw)
            for der in range(deg + 3):
                ctx.eval()
                r = poly(cs, new, der=der)
                t = dict(rtol=1e-5, atol=1e-6 * (1 + abs(y).max()) * 10 ** der)
                v = g(new[:, 0], der=der)
                check(np.shape(v) == (len(new),), 'shape')
                assert_close(v, r, 'derivative %i' % der, **t)
                assert_equal(g(new, der=der), v, '2d points')
                assert_equal(g2(new[:, 0], der=der), v, 'PolyFit1D from (npoints,1)')
                assert_close(f(new, der=der), v, 'PolyFit der', **t)
                s = [g(float(x), der=der) for x in new[:, 0]]
                check(all(np.ndim(x) == 0 for x in s), 'scalar in, scalar out')
                assert_close(np.array(s), v, 'scalar calls', rtol=1e-9, atol=1e-9 * (1 + abs(v).max()))
                assert_close(np.array(g(list(new[:, 0]), der=der)), v, 'list', rtol=1e-9, atol=1e-12)
        else:
            check(raises(lambda: f(new, der=1)), 'derivative in nd')
        check(raises(lambda: num.polyval(fit, np.zeros((3, nd + 1)))), 'points of other dimension accepted')
        check(raises(lambda: num.polyfit(pts, y[:-1], deg)), 'wrong length accepted')
        check(freeze([pts, y]) == b, 'arguments changed')
    # the fit is a linear least-squares problem: data outside the space is projected
    if not kw or kw['scale'] or kw['scale_vand']:
        y = poly([((deg + 1,) * nd, 1.0)], pts) + 1
        V = np.array([np.prod(pts ** np.array(p), axis=1) for p in basis]).T
        c = np.linalg.lstsq(V, y, rcond=None)[0]
        assert_close(num.PolyFit(pts, y, deg, **kw)(pts), V @ c, 'least squares', rtol=1e-6, atol=1e-6 * (1 + abs(y).max()))

def gen_extreme(tier):
    for a in (0.0, 1.0, -1.0, 250.0, -250.0):
        for s in (1.0, 1e-3, 1e4):
            for vo in (0.0, 1.0, -300.0, 300.0):
                for vs in (0.0, 1.0, 1e-6, 1e5):
                    yield [a, s, vo, vs]

@chk.group(gen_extreme)
def scales(case, ctx):
    """data on very different scales: f = vo + vs*(u^2 - u), u in [0,2]"""
    a, s, vo, vs = case
    u = axis(0.0, 2.0, 7)
    x = a + s * u
    if np.ptp(x) / max(abs(x)) < 1e-4:
        ctx.trivial(); return       # too narrow for double precision in x
    y = vo + vs * (u * u - u)
    f = num.PolyFit1D(x, y, 2)
    un = np.array([0.1, 0.77, 1.4])
    tol = 1e-9 * (abs(vs) + abs(vo)) + 1e-9 * abs(vs) * max(abs(x)) / s
    assert_close(f(a + s * un), vo + vs * (un * un - un), 'value', rtol=0, atol=tol + 1e-300)
    assert_close(f(a + s * un, der=1) * s, vs * (2 * un - 1), 'slope', rtol=0, atol=100 * tol + 1e-300)
    # one constant coordinate
    pts = np.array([[a, t] for t in u])
    f = num.PolyFit(pts, y, 2)
    assert_close(f(np.array([[a, t] for t in un])), vo + vs * (un * un - un), 'constant coordinate', rtol=0, atol=1e-6 * (abs(vs) + abs(vo)) + 1e-300)

def gen_ext(tier):
    n = 11 if tier == 'quick' else 41
    for lo, hi in ((-1.0, 1.0), (0.5, 3.0), (-4.0, -2.0)):
        for i in range(1, n):
            for kind in ('poly', 'spline'):
                for k in (2, 3):
                    yield [lo, hi, lo + (hi - lo) * i / n, kind, k]

@chk.group(gen_ext)
def minima(case, ctx):
    lo, hi, m, kind, k = case
    x = axis(lo, hi, 15)
    lo, hi = x[0], x[-1]
    if not lo + 0.02 < m < hi - 0.02:
        m = 0.5 * (lo + hi)
    sgn = 1.0 if k == 2 else -1.0
    y = sgn * 1.7 * (x - m) ** 2 - 0.4
    def mk(yy):
        return num.PolyFit1D(x, yy, deg=k) if kind == 'poly' else num.Spline(x, yy)
    f = mk(y)
    w = 0.3 * min(m - lo, hi - m)
    tol = 1e-6
    for call in (f.get_min, f.get_max):
        for kw in ({}, dict(xab=[m - w, m + 0.5 * w]), dict(x0=m + 0.3 * w), dict(xab=(lo, hi)), dict(xab=[m - 0.1 * w, hi], xtol=1e-13)):
            ctx.eval()
            assert_close(call(**kw), m, 'extremum %s' % (kw,), rtol=0, atol=tol)
    # roots, inverse values
    g = mk(y + 0.4 + sgn * (-1.7) * (0.5 * w) ** 2)      # zeros at m +- w/2
    for sg in (-1, 1):
        r = m + sg * 0.5 * w
        for kw in (dict(xab=[m, r + 0.4 * w] if sg > 0 else [r - 0.4 * w, m]), dict(x0=r + 0.02 * w)):
            ctx.eval()
            assert_close(g.get_root(**kw), r, 'root %s' % (kw,), rtol=0, atol=tol)
            if kind == 'spline' and g.y.min() < 0 < g.y.max():
                assert_close(g.invsplev(0.0, **kw), r, 'invsplev', rtol=0, atol=tol)
    h = mk(2.0 * x - 2.0 * m)
    assert_close(h.get_root(), m, 'root, default bracket', rtol=0, atol=tol)
    check(h.is_mono(), 'is_mono of a line')
    if x[1] < m < x[-2]:        # otherwise the extremum is not seen on the grid
        check(not f.is_mono(), 'is_mono')
    if kind == 'spline':
        for y0 in (-0.1, 0.0, 0.2):
            if lo < m + 0.5 * y0 < hi:
                assert_close(h.invsplev(y0), m + 0.5 * y0, 'invsplev', rtol=0, atol=tol)
        yy = 2.0 * x - 2.0 * m
        for y0 in (yy.min() - 0.1, yy.max() + 0.1):
            for kw in ({}, dict(x0=m), dict(xab=[lo, hi])):
                check(raises(lambda: h.invsplev(y0, **kw), AssertionError), 'value outside of the range accepted')
        for q, e in ((num.findmin, [m, -0.4]),):
            if k == 2:
                assert_close(q(x, y), np.array(e), 'findmin', rtol=0, atol=tol)
        assert_close(num.findroot(x, yy), np.array([m, 0.0]), 'findroot', rtol=0, atol=tol)
        # y(x) given on a lookup grid: inverse of the forward call
        for xx in axis(lo + 0.01, hi - 0.01, 5):
            assert_close(h.invsplev(h(xx)), xx, 'inverse', rtol=0, atol=tol)
        # ... of all data values, with the ends of the interval
        for fun in (lambda t: 2.0 * t - 2.0 * m, lambda t: (t - lo + 0.1 * (hi - lo)) ** 2, lambda t: -np.exp((t - m) / (hi - lo))):
            yy = fun(x)
            s3 = mk(yy)
            for i in range(len(x)):
                for kw in ({}, dict(xab=[x[0], x[-1]])) + (({}, dict(xab=[x[0], x[i]]), dict(xab=[x[i], x[-1]])) if 0 < i < len(x) - 1 else ()):
                    ctx.eval()
                    assert_close(s3.invsplev(yy[i], **kw), x[i], 'inverse of data value %i of %i (%r)' % (i, len(x), kw), rtol=0, atol=max(tol, 1e-7 * (hi - lo)))
    else:
        g2 = num.PolyFit(x[:, None], sgn * y, deg=2)
        assert_close(g2.get_min(), np.array([m]), 'PolyFit.get_min', rtol=0, atol=1e-4)
        assert_close(g2.get_min(x0=np.array([m + 0.1])), np.array([m]), 'PolyFit.get_min(x0)', rtol=0, atol=1e-4)

# --- the lowest of several minima --------------------------------------------------
def gen_wells(tier):
    for nd in (1, 2):
        for ctr in (-2.0, 0.0, 1.0, 30.0):
            for tilt in (-0.6, -0.2, 0.2, 0.6):
                for n in (9, 12, 15) if tier == 'quick' else (9, 10, 12, 15, 20):
                    for lo, hi in ((-1.5, 1.5), (-1.3, 1.6), (-1.6, 1.3), (0.3, 1.5), (-1.5, -0.3)):
                        for rev in (0, 1) if ctr < 3 or lo * hi < 0 else ():
                            yield [nd, ctr, tilt, n, lo, hi, rev]

@chk.group(gen_wells)
def wells(case, ctx):
    """minimum of fits to double wells: the one with the lowest data value, or the one next to the guess"""
    nd, ctr, tilt, n, lo, hi, rev = case
    u = np.linspace(lo, hi, n)
    f = lambda a: (a ** 2 - 1) ** 2 - tilt * a
    r = np.roots([4, 0, -4, -tilt])
    r = sorted(float(z.real) for z in r if abs(z.imag) < 1e-9)
    mins = [z for z in r if 12 * z ** 2 - 4 > 0 and lo < z < hi]
    if nd == 1:
        pts, val = u[:, None], f(u)
    else:
        pts = np.array([[a, b] for a in u for b in u[:6]])
        val = f(pts[:, 0]) + (pts[:, 1] - u[2]) ** 2
    pts = pts + np.array([[ctr, -ctr][:nd]])
    if rev:
        pts, val = pts[::-1], val[::-1]
    # depths of any sign
    val = val + (0.0 if n % 2 else -7.0)
    fit = num.PolyFit(pts, val, deg=4)
    full = lambda z: np.array([z + ctr, u[2] - ctr][:nd])
    near = lambda z: min(mins, key=lambda q: abs(q - z))
    if len(mins) < 2:
        ctx.trivial()
    start = pts[val.argmin(), 0] - ctr
    check(len(mins) >= 1, 'no minimum in the interval (harness)')
    best = min(mins, key=f)
    assert_close(fit.get_min(), full(best), 'lowest minimum', rtol=0, atol=1e-3)
    if nd == 2:
        assert_close(num.Interpol2D(points=pts, values=val, what='poly', deg=4).get_min(), full(best), 'lowest minimum, Interpol2D', rtol=0, atol=1e-3)
    for z in mins if abs(ctr) < 3 else ():
        ctx.eval()
        assert_close(fit.get_min(x0=full(z) + 0.02), full(z), 'minimum next to the guess', rtol=0, atol=1e-3)
    if nd == 1:
        f1 = num.PolyFit1D(pts[:, 0], val, 4)
        for z in mins if abs(ctr) < 3 else ():
            assert_close(f1.get_min(x0=z + ctr + 0.02), z + ctr, 'PolyFit1D', rtol=0, atol=1e-6)

def gen_spl(tier):
    for k in range(1, 6):
        for ri in range(len(RANGES)):
            for n in (k + 1, k + 2, 9):
                yield [k, ri, n]

@chk.group(gen_spl)
def splines(case, ctx):
    k, ri, n = case
    x = axis(*RANGES[ri], n)
    xn = axis(x[0], x[-1], 7)
    kws = [dict(k=k)] + ([{}] if k == 3 else [])
    for bi in range(k + 2):
        cs = [((bi,), 1.5)] if bi <= k else [((j,), math.cos(2 * j + 1)) for j in range(k + 1)]
        y = poly(cs, x[:, None])
        b = freeze([x, y])
        tol = dict(rtol=1e-8, atol=1e-8 * (1 + abs(y).max()))
        for kw in kws:
            s = num.Spline(x, y, **kw)
            assert_close(s(x), y, 'data', **tol)
            assert_close(s(xn), poly(cs, xn[:, None]), 'values', **tol)
            for v in (s(float(xn[2])), s(np.float64(xn[2]))):
                check(type(v) == float, 'scalar in, float out: %s' % type(v))
                assert_close(v, s(xn)[2], 'scalar', rtol=1e-13, atol=1e-13)
            assert_equal(s.splev(xn), s(xn), 'splev')
            for der in range(1, k + 1):
                ctx.eval()
                r = poly(cs, xn[:, None], der=der)
                t = dict(rtol=1e-6, atol=1e-7 * (1 + abs(y).max()) * 10 ** der)
                assert_close(s(xn, der=der), r, 'derivative', **t)
                assert_close(s(xn, der), r, 'derivative', **t)
                rx = poly(cs, x[:, None], der=der)
                assert_close(num.deriv_spl(y, x, n=der, **kw), rx, 'deriv_spl', **t)
                assert_close(num.deriv_spl(y, x, xn, n=der, **kw), r, 'deriv_spl xnew', **t)
                xo, yo = num.deriv_spl(y, x=x, xnew=xn, n=der, fullout=True, **kw)
                assert_equal(xo, xn, 'xd'); assert_close(yo, r, 'yd', **t)
                xo, yo = num.deriv_spl(y, x=x, n=der, fullout=True, **kw)
                assert_equal(xo, x, 'xd'); assert_close(yo, rx, 'yd', **t)
                xi = np.arange(n)
                yi = poly(cs, xi[:, None] * 1.0)
                assert_close(num.deriv_spl(yi, n=der, **kw), poly(cs, xi[:, None] * 1.0, der=der), 'deriv_spl without x',
                             rtol=1e-6, atol=1e-8 * abs(yi).max() * 10 ** der)
            check(raises(lambda: num.deriv_spl(y, x, n=0, **kw)), 'n=0')
        # non-ordered axis is refused
        for i in range(n - 1):
            xb = x.copy(); xb[[i, i + 1]] = xb[[i + 1, i]]
            check(raises(lambda: num.Spline(xb, y, k=k), AssertionError), 'unordered x accepted')
        check(freeze([x, y]) == b, 'arguments changed')
    # smoothing which misses the data by more than eps is refused unless asked for
    y = np.sin(9.0 * np.arange(n))
    if n > k + 1:
        e = np.abs(num.Spline(x, y, k=k, s=n * 100.0, checkeps=False)(x) - y).max()
        check(e > 1e-3, 'smoothing has no effect')
        check(raises(lambda: num.Spline(x, y, k=k, s=n * 100.0), AssertionError), 'inaccurate spline accepted')
        check(raises(lambda: num.Spline(x, y, k=k, s=n * 100.0, eps=e * 0.99), AssertionError), 'eps')
        num.Spline(x, y, k=k, s=n * 100.0, eps=e * 1.01)

def gen_mono(tier):
    for n in range(4, 7 if tier == 'quick' else 9):
        for s in itertools.product((-1, 1, 2), repeat=n - 1):
            yield [list(s)]

@chk.group(gen_mono)
def monotonic(case, ctx):
    s = case[0]
    y = np.cumsum([0.5] + s)
    x = axis(0.0, 3.0, len(y))
    e = all(v > 0 for v in s) or all(v < 0 for v in s)
    check(bool(num.Spline(x, y).is_mono()) == e, 'is_mono')
    check(bool(num.PolyFit1D(x, y, deg=len(y) - 1).is_mono()) == e, 'is_mono of PolyFit1D')

def gen_i2(tier):
    for what in ('poly', 'bispl', 'ct', 'linear', 'nearest', 'rbf_multi', 'rbf_inv_multi', 'rbf_gauss'):
        for f in range(4):
            for nx, ny in ((5, 5), (6, 5), (5, 7)):
                yield [what, f, nx, ny]

F2 = [lambda x, y: 0 * x + 3.0, lambda x, y: 2 * x - y + 0.5, lambda x, y: (x - 0.3) ** 2 + 2 * (y + 0.2) ** 2 + 0.5 * x * y,
      lambda x, y: np.cos(x) * np.exp(0.3 * y)]

@chk.group(gen_i2)
def interpol2d(case, ctx):
    what, fi, nx, ny = case
    f = F2[fi]
    x, y = axis(-1.0, 1.2, nx), axis(-1.1, 1.0, ny)
    X, Y = np.meshgrid(x, y, indexing='ij')
    Z = f(X, Y)
    pts = np.array([X.ravel(), Y.ravel()]).T
    zz = Z.ravel()
    kws = {'poly': [dict(deg=2), dict(deg=3)], 'bispl': [{}, dict(kx=3, ky=3)], 'ct': [{}, dict(tol=1e-7)],
           'rbf_multi': [{}, dict(r=0, p=0.8), dict(p='scipy')], 'rbf_inv_multi': [{}, dict(r=0, p=0.8), dict(p='scipy')],
           'rbf_gauss': [dict(p=0.5), dict(r=0, p=0.4)]}.get(what, [{}])
    new = np.array([[0.11, 0.23], [-0.4, 0.6], [0.7, -0.71]])
    for kw in kws:
        ctx.eval()
        b = freeze([pts, zz])
        forms = [num.Interpol2D(points=pts, values=zz, what=what, **kw),
                 num.Interpol2D(xx=pts[:, 0], yy=pts[:, 1], values=zz, what=what, **kw),
                 num.Interpol2D(dd=mpl.Data2D(X=X, Y=Y, Z=Z), what=what, **kw)]
        if what == 'rbf_inv_multi':
            forms.append(num.Interpol2D(points=pts, values=zz, **kw))     # default
        a = forms[0]
        va = a(new)
        check(np.shape(va) == (3,), 'shape %s' % (np.shape(va),))
        for g in forms[1:]:
            assert_close(g(new), va, 'input forms', rtol=1e-9, atol=1e-9)
        exact_space = (what == 'poly' and fi < 3) or (what == 'bispl' and fi < 3) or (what in ('linear', 'ct') and fi < 2) or (what == 'nearest' and fi == 0)
        if exact_space:
            tol = 1e-6
        else:
            tol = {'poly': 0.15, 'bispl': 0.05, 'ct': 0.15, 'linear': 0.4, 'nearest': 2.5}.get(what, 0.5)
        assert_close(va, f(new[:, 0], new[:, 1]), 'values', rtol=0, atol=tol)
        if not (what == 'poly' and fi == 3):
            t = {'bispl': 2e-2 if fi == 3 else 1e-4}.get(what, 1e-5)
            assert_close(a(pts), zz, 'data points', rtol=0, atol=t)
        for i in range(3):
            v = a(new[i])
            check(np.shape(v) == (1,), 'one point')
            assert_close(v[0], va[i], 'one point', rtol=1e-9, atol=1e-10)
            assert_close(a(list(new[i]))[0], va[i], 'list', rtol=1e-9, atol=1e-10)
        # order of the points does not matter
        p = np.argsort(np.sin(np.arange(len(zz)) * 3.0))
        if what != 'bispl' and not (what == 'ct' or what == 'linear'):
            assert_close(num.Interpol2D(points=pts[p], values=zz[p], what=what, **kw)(new), va, 'order of points', rtol=1e-4, atol=1e-4)
        if fi == 2 and what in ('poly', 'bispl', 'rbf_multi', 'rbf_inv_multi'):
            # (x-.3)^2+2(y+.2)^2+.5xy: 2(x-.3)+.5y=0, 4(y+.2)+.5x=0
            m = np.linalg.solve([[2, 0.5], [0.5, 4]], [0.6, -0.8])
            tolm = 1e-3 if what in ('poly', 'bispl') else 0.2
            assert_close(a.get_min(), m, 'get_min', rtol=0, atol=tolm)
            assert_close(a.get_min(x0=m + 0.05, maxiter=500), m, 'get_min(x0)', rtol=0, atol=tolm)
        check(freeze([pts, zz]) == b, 'arguments changed')
    check(raises(lambda: num.Interpol2D(points=pts, xx=X.ravel(), yy=Y.ravel(), values=zz, what=what)), 'ambiguous input')
    check(raises(lambda: num.Interpol2D(points=pts, values=zz, what='nope')), 'unknown method')
