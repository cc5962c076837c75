"""P24: equation of state, harmonic and quasi-harmonic quantities."""
import itertools, math, os, sys, warnings
import numpy as np
from mc import *
from pwtools import eos, thermo, num, constants
import co

chk = Check('P24', rule='Every case (grids of EOS parameters and volumes; all small frequency/DOS sets, temperature lists and options; all axis grids, T-P grids and options of the quasi-harmonic class) is run with the real code and compared with closed-form results computed by explicit loops. Non-trivial: more than one volume, frequency or grid point.',
            assumptions=['fits: data comes from the model itself', 'an external EOS program is replaced by a stand-in which evaluates the model'])

H = 6.62606896e-34
C0 = 299792458.0
KB = 1.3806504e-23
EVJ = 1.602176487e-19
GPA = 160.2176487

@chk.group(lambda tier: [['all']])
def constants_used(case, ctx):
    ctx.trivial()
    assert_close([constants.hplanck, constants.c0, constants.kb, constants.eV, constants.eV_by_Ang3_to_GPa],
                 [H, C0, KB, EVJ, GPA], 'constants', rtol=2e-6)

# physical constants of the library, so that comparisons are tight
H, C0, KB, EVJ, GPA = constants.hplanck, constants.c0, constants.kb, constants.eV, constants.eV_by_Ang3_to_GPa

# ------------------------------------------------------------------ EOS
def vinet(v, p):
    e0, b0, b1, v0 = p
    x = (v / v0) ** (1 / 3.)
    t = 1.5 * (b1 - 1)
    return e0 + 9 * b0 * v0 / t ** 2 * (1 - (1 - t * (1 - x)) * math.exp(t * (1 - x)))

def vinet_p(v, p):
    e0, b0, b1, v0 = p
    x = (v / v0) ** (1 / 3.)
    return 3 * b0 * (1 - x) / x ** 2 * math.exp(1.5 * (b1 - 1) * (1 - x))

def vinet_b(v, p):
    """-V dP/dV"""
    e0, b0, b1, v0 = p
    x = (v / v0) ** (1 / 3.)
    t = 1.5 * (b1 - 1)
    ex = math.exp(t * (1 - x))
    # d/dx [3 b0 (1-x) x^-2 e^..]
    d = 3 * b0 * ex * (-x ** -2 - 2 * (1 - x) * x ** -3 - t * (1 - x) * x ** -2)
    return -d * x / 3.

def gen_eos(tier):
    for e0 in (-300.0, 0.0, 12.5):
        for b0 in (0.05, 0.6, 2.5):
            for b1 in (3.2, 4.0, 6.5):
                for v0 in (8.0, 40.0, 333.0):
                    for lo, hi in ((0.9, 1.1), (0.85, 1.05), (0.95, 1.2)):
                        for n in (5, 9, 20) if tier == 'thorough' else (7, 20):
                            yield [e0, b0, b1, v0, lo, hi, n]

@chk.group(gen_eos)
def eos_fit(case, ctx):
    e0, b0, b1, v0, lo, hi, n = case
    p = (e0, b0, b1, v0)
    v = v0 * co_axis(lo, hi, n)
    e = np.array([vinet(x, p) for x in v])
    b = freeze([v, e])
    for order in ('up', 'down', 'mixed'):
        i = {'up': np.arange(n), 'down': np.arange(n)[::-1], 'mixed': np.argsort(np.sin(5.0 * np.arange(n)))}[order]
        ctx.eval()
        f = eos.EosFit(v[i], e[i])
        q = f.params
        assert_close([q['e0'], q['b0'], q['b1'], q['v0']], p, 'parameters', rtol=2e-4, atol=1e-6 * b0 * v0)
        assert_close(f.get_min(), v0, 'get_min', rtol=1e-5)
        own = [q['e0'], q['b0'], q['b1'], q['v0']]
        vs = v0 * np.array([0.88, 0.97, 1.0, 1.06, 1.15])
        sc = b0 * v0
        assert_close(f(vs), [vinet(x, own) for x in vs], 'E(V)', rtol=1e-12, atol=1e-11 * sc)
        assert_close(f(vs, der=1), [-vinet_p(x, own) for x in vs], 'dE/dV', rtol=1e-10, atol=1e-11 * b0)
        assert_close(f(vs, der=2), [vinet_b(x, own) / x for x in vs], 'd2E/dV2', rtol=1e-10)
        assert_close(f.pressure(vs), [GPA * vinet_p(x, own) for x in vs], 'P(V)', rtol=1e-10, atol=1e-9 * b0)
        assert_close(f.bulkmod(vs), [GPA * vinet_b(x, own) for x in vs], 'B(V)', rtol=1e-10)
        assert_close(f.bulkmod(q['v0']), GPA * q['b0'], 'B(V0)', rtol=1e-10)
        for x in vs:
            assert_close([f(x), f(x, der=1), f.pressure(x), f.bulkmod(x)],
                         [vinet(x, own), -vinet_p(x, own), GPA * vinet_p(x, own), GPA * vinet_b(x, own)], 'scalar', rtol=1e-10, atol=1e-9 * b0)
        # third derivative: spline fallback, numeric reference
        w = v0 * np.array([0.97, 1.0, 1.02])
        hh = 1e-3 * v0
        ref = [(vinet_b(x + hh, own) / (x + hh) - vinet_b(x - hh, own) / (x - hh)) / (2 * hh) for x in w]
        assert_close(f(w, der=3), ref, 'third derivative', rtol=0.03, atol=1e-3 * abs(np.array(ref)).max())
        m = f.func
        d = dict(e0=e0, b0=b0, b1=b1, v0=v0)
        check(m.lst2dct(m.dct2lst(d)) == d, 'parameter order')
        for q in itertools.permutations(d):
            check(list(m.dct2lst({k: d[k] for k in q})) == list(m.dct2lst(d)), 'parameter order')
        assert_close(m(v, d), e, 'model', rtol=1e-12, atol=1e-11 * sc)
        assert_equal(m(v, d, der=1), m.deriv(v, d, 1), 'der=1')
        check(raises(lambda: m(v, d, der=3), eos.MaxDerivException), 'der=3 of the model')
    check(freeze([v, e]) == b, 'arguments changed')

def co_axis(lo, hi, n):
    k = np.arange(n)
    return lo + (hi - lo) * (k + 0.1 * np.sin(3.0 * k)) / (n - 1)

def gen_out(tier):
    for lo, hi in ((0.5, 0.95), (0.3, 0.99), (1.02, 1.5), (1.1, 3.0), (0.9, 1.1), (0.98, 1.4), (0.6, 1.01)):
        for v0 in (1.0, 40.0):
            yield [lo, hi, v0]

@chk.group(gen_out)
def eos_range(case, ctx):
    """data whose minimum is not inside the volumes is refused"""
    lo, hi, v0 = case
    v = v0 * np.linspace(lo, hi, 9)
    e = (v / v0 - 1) ** 2 * v0 * 0.3 - 7
    if lo < 1 < hi:
        f = eos.EosFit(v, e)
        check(np.isfinite(list(f.params.values())).all(), 'fit')
    else:
        check(raises(lambda: eos.EosFit(v, e)), 'minimum outside the volumes accepted')

FAKE = '''#!%s
import math
L = [l for l in open('eos.in').read().split('\\n') if l.strip()]
name, natoms, etype = L[0].strip(), int(L[1]), int(L[2])
a, b, n = L[3].replace(',', ' ').split()
npt = int(L[4])
D = [[float(x) for x in l.split()] for l in L[5:] if l.strip()]
assert len(D) == npt, (len(D), npt)
# parabola through the points (the data is one), per atom
import numpy as np
V = np.array([d[0] for d in D]); E = np.array([d[1] for d in D])
x = (V - V.mean()) / V.std()
c = np.polyfit(x, E, 3)
vv = np.linspace(float(a), float(b), int(n))
xx = (vv - V.mean()) / V.std()
ee = np.polyval(c, xx)
pp = -np.polyval(np.polyder(c), xx) / V.std()      # Ha / Bohr^3
if name.startswith('other'):
    # pressure on its own volume axis and with an offset
    vv2 = np.linspace(float(a), float(b), int(n) - 1)
    vp, pp = vv2, pp[0] + (pp[-1] - pp[0]) * (vv2 - vv2[0]) / (vv2[-1] - vv2[0]) + 1e-4
else:
    vp = vv
np.savetxt('EVPAI.OUT', np.array([vv / natoms, ee / natoms]).T, fmt='%%.18e')
np.savetxt('PVPAI.OUT', np.array([vp / natoms, pp * 29421.01]).T, fmt='%%.18e')
open('PARAM.OUT', 'w').write('%%s|%%i|%%i|%%i' %% (name, natoms, etype, npt))
'''

def gen_elk(tier):
    for natoms in (1, 3):
        for bv in ('ev', 'pv'):
            for v0 in (10.0, 40.0):
                for npoints in (20, 50):
                    for how in ('path', 'relpath', 'PATH'):
                        yield [natoms, bv, v0, npoints, how]

@chk.group(gen_elk)
def extern(case, ctx):
    natoms, bv, v0, npoints, how = case
    d = ctx.tmp()
    os.makedirs(d + '/bin')
    exe = d + '/bin/eos.x'
    with open(exe, 'w') as f:
        f.write(FAKE % sys.executable)
    os.chmod(exe, 0o755)
    os.chdir(d)
    v = v0 * co_axis(0.9, 1.15, 12)
    k, cub = 0.02, -0.0004
    e = k * (v - v0) ** 2 + cub * (v - v0) ** 3 / v0 - 31.5
    b = freeze([v, e])
    old = os.environ['PATH']
    app = {'path': exe, 'relpath': 'bin/eos.x', 'PATH': 'eos.x'}[how]
    if how == 'PATH':
        os.environ['PATH'] = d + '/bin:' + old
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = eos.ElkEOSFit(app=app, energy=e, volume=v, natoms=natoms, npoints=npoints, bv_method=bv, dir=d + '/run', verbose=False)
            f.fit()
    finally:
        os.environ['PATH'] = old
    vv = np.linspace(v[0], v[-1], npoints)
    E = k * (vv - v0) ** 2 + cub * (vv - v0) ** 3 / v0 - 31.5
    P = -(2 * k * (vv - v0) + 3 * cub * (vv - v0) ** 2 / v0) * GPA
    B = vv * (2 * k + 6 * cub * (vv - v0) / v0) * GPA
    assert_close(f.ev, np.array([vv, E]).T, 'ev', rtol=1e-6)
    assert_close(f.pv, np.array([vv, P]).T, 'pv', rtol=1e-5, atol=1e-4)
    assert_close(f.bv, np.array([vv, B]).T, 'bv', rtol=1e-3)
    for bm in (bv, 'pv', 'ev'):
        f.set_bv_method(bm)
        m = f.get_min()
        assert_close([m['v0'], m['e0'], m['p0'], m['b0']], [v0, -31.5, 0, v0 * 2 * k * GPA], 'minimum', rtol=1e-3, atol=1e-3)
        assert_close(sorted(f.get_min(behave='old')), sorted(m.values()), 'old form', rtol=1e-12)
    check(freeze([v, e]) == b, 'arguments changed')
    # pressures which do not belong to the energies: only the chosen source is used
    os.environ['PATH'] = d + '/bin:' + old
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = eos.ElkEOSFit(app=app, energy=e, volume=v, natoms=natoms, npoints=npoints, bv_method=bv, dir=d + '/run2', verbose=False, name='other thing', etype=5)
            f.fit()
    finally:
        os.environ['PATH'] = old
    check(open(d + '/run2/PARAM.OUT').read() == 'other thing|%i|5|%i' % (natoms, len(v)), 'input of the program')
    assert_close(f.ev, np.array([vv, E]).T, 'ev', rtol=1e-6)
    vp = np.linspace(v[0], v[-1], npoints - 1)
    slope = (P[-1] - P[0]) / (vp[-1] - vp[0])
    pp = P[0] + slope * (vp - vp[0]) + 1e-4 * 29421.01
    assert_close(f.pv, np.array([vp, pp]).T, 'pv', rtol=1e-4, atol=1e-4)
    if bv == 'ev':
        assert_close(f.bv, np.array([vv, B]).T, 'bv', rtol=1e-3)
        ref = [v0, -31.5, P[0] + slope * (v0 - vp[0]) + 1e-4 * 29421.01, v0 * 2 * k * GPA]
    else:
        assert_close(f.bv, np.array([vp, -vp * slope]).T, 'bv', rtol=1e-3)
        vm = vp[0] - pp[0] / slope
        ref = [vm, k * (vm - v0) ** 2 + cub * (vm - v0) ** 3 / v0 - 31.5, 0, -vm * slope]
    m = f.get_min()
    assert_close([m['v0'], m['e0'], m['p0'], m['b0']], ref, 'minimum', rtol=1e-3, atol=1e-2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        check(raises(lambda: eos.ElkEOSFit(app=app, energy=e[::-1], volume=v[::-1], dir=d + '/r2', verbose=False), AssertionError), 'descending volumes accepted')
        check(raises(lambda: eos.ElkEOSFit(app=app, energy=e[:-1], volume=v, dir=d + '/r2', verbose=False), AssertionError), 'lengths')
        check(raises(lambda: eos.ElkEOSFit(app=app, energy=e, volume=v, npoints=5, dir=d + '/r2', verbose=False), AssertionError), 'npoints')

# ------------------------------------------------------------------ harmonic
def trap(y, x):
    return math.fsum(0.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i]) for i in range(len(x) - 1))

def modes(f, T):
    """evib, fvib [eV], svib, cv [kb] of one oscillator f [cm^-1]"""
    e = H * C0 * 100 * f
    x = e / (KB * T)
    em = math.exp(-x)
    n = em / (1 - em)
    ev = e * (0.5 + n) / EVJ
    fv = (0.5 * e + KB * T * math.log1p(-em)) / EVJ
    sv = x * n - math.log1p(-em)
    cv = x * x * em / (1 - em) ** 2
    return ev, fv, sv, cv

FR = [[10.0, 200.0], [50.0, 100.0, 450.0], [1.0, 20.0, 30.0, 2000.0], [100.0, 150.0, 225.0, 300.0, 4000.0],
      [-50.0, 0.0, 30.0, 200.0], [-80.0, -3.0, 1e-17, 12.0, 60.0, 600.0], [0.0, 5.0, 300.0], [0.5, 3500.0]]
TS = [[300.0], [1.0, 5.0], [10.0, 300.0, 3000.0], [700.0, 20.0]]
NAMES = [('vibrational_internal_energy', 'evib'), ('vibrational_free_energy', 'fvib'), ('vibrational_entropy', 'svib'), ('isochoric_heat_capacity', 'cv')]

def gen_harm(tier):
    for fi in range(len(FR)):
        for di in range(3):
            for ti in range(len(TS)):
                for area in (None, 3.0, 12):
                    for skip in (0, 1):
                        yield [fi, di, ti, area, skip]

@chk.group(gen_harm)
def harmonic(case, ctx):
    fi, di, ti, area, skip = case
    f = np.array(FR[fi])
    dos = np.array([[1.0, 2.0, 0.5, 3.0, 1.5, 0.25], [0.0, 1.0, 4.0, 0.0, 1.0, 0.0], [0.02, 0.01, 0.03, 0.01, 0.02, 0.05]][di][:len(f)])
    T = np.array(TS[ti])
    neg = bool((f <= 0).any())
    if neg and not skip:
        # not defined: positive frequencies only or skipfreq / fixnan
        ha = thermo.HarmonicThermo(f, dos, T, verbose=False)
        with np.errstate(all='ignore'):
            ha.fvib()
        check(freeze([ha.f, ha.dos]) == freeze([f, dos]), 'data changed')
        ctx.trivial()
        return
    keep = f > 0 if fi != 5 else f > 1e-16
    ff, dd = f[keep], dos[keep].copy()
    if area is not None:
        a = trap(dd, ff)
        dd = dd * area / a
    ref = np.zeros((4, len(T)))
    for i, t in enumerate(T):
        m = np.array([modes(x, t) for x in ff])
        for j in range(4):
            ref[j, i] = trap(m[:, j] * dd, ff)
    b = freeze([f, dos, T])
    kw = dict(skipfreq=bool(skip), dosarea=area, verbose=False)
    base = None
    for order in itertools.permutations(range(4)):
        ctx.eval()
        ha = thermo.HarmonicThermo(f, dos, T, **kw)
        got = [None] * 4
        with np.errstate(all='ignore'):
            for j in order:
                got[j] = getattr(ha, NAMES[j][0])()
        if base is None:
            base = got
            for j in range(4):
                # the entropy is a difference of two terms of this size
                big = trap(dd * H * C0 * 100 * ff / (KB * T.min()), ff) if j == 2 else 0.0
                assert_close(got[j], ref[j], NAMES[j][0], rtol=1e-8, atol=1e-12 + 1e-13 * big)
            assert_close(got[1], got[0] - T * got[2] * KB / EVJ, 'F = E - T S', rtol=1e-8, atol=1e-9 * abs(got[0]).max())
        for j in range(4):
            assert_equal(got[j], base[j], 'order of calls %s' % (order,))
        check(freeze([f, dos, T]) == b, 'arguments changed')
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        forms = [thermo.HarmonicThermo(freq=f, dos=dos, temp=T, **kw), thermo.HarmonicThermo(f, dos, T, fixnan=True, nanfill=7.0, **kw),
                 thermo.HarmonicThermo(f, dos, T, integrator=lambda y, x, axis=-1: np.apply_along_axis(trap, axis, y, x), **kw),
                 thermo.HarmonicThermo(f, dos, T=T, eps=1e-15 if fi == 5 else 0.4, **kw)]
        for ha in forms:
            for j in range(4):
                assert_close(getattr(ha, NAMES[j][1])(), base[j], 'form', rtol=1e-10, atol=1e-14)
                # other temperatures on request, without changing the default
                assert_close(getattr(ha, NAMES[j][1])(T[:1] * 1.0), base[j][:1], 'temp argument', rtol=1e-12, atol=1e-15)
                assert_close(getattr(ha, NAMES[j][0])(temp=T[::-1]), base[j][::-1], 'temp argument', rtol=1e-12, atol=1e-15)
                assert_close(getattr(ha, NAMES[j][0])(), base[j], 'stored T', rtol=1e-10, atol=1e-14)
        ha = thermo.HarmonicThermo(f, dos, **kw)
        for n, m in NAMES:
            check(raises(lambda: getattr(ha, n)()), 'no temperature')
            check(raises(lambda: getattr(ha, m)()), 'no temperature')
            assert_equal(getattr(ha, m)(T), getattr(ha, n)(T), 'alias')
        check(raises(lambda: thermo.HarmonicThermo(f, dos[:-1], T, verbose=False)), 'lengths')
        check(raises(lambda: thermo.HarmonicThermo(f, dos, T=T, temp=T, verbose=False)), 'T and temp')
    check(freeze([f, dos, T]) == b, 'arguments changed')

@chk.group(lambda tier: [[i, j] for i in range(3) for j in range(4)])
def fixnan(case, ctx):
    """the integrand values which are NaN are replaced, nothing else"""
    i, j = case
    f = np.array([[0.0, 40.0, 90.0, 200.0], [0.0, 0.0, 30.0, 100.0], [0.0, 500.0, 700.0, 1000.0]][i])
    dos = np.array([0.0, 1.0, 2.0, 0.5])
    if i == 1:
        dos[1] = 0.0
    T = np.array([50.0, 400.0])
    with np.errstate(all='ignore'):
        ha = thermo.HarmonicThermo(f, dos, T, fixnan=True, verbose=False)
        for name, jj in (('evib', 0), ('cv', 3), ('fvib', 1), ('svib', 2)):
            if jj != j:
                continue
            got = getattr(ha, name)()
            for k, t in enumerate(T):
                y = [dos[n] * modes(f[n], t)[jj] if f[n] > 0 else 0.0 for n in range(4)]
                assert_close(got[k], trap(y, f), name, rtol=1e-9)

# ------------------------------------------------------------------ quasi-harmonic
class Pick:
    """fit object which returns a data point, so that results are exact"""
    off = 0.0
    def __init__(self, x, y):
        self.x, self.y = np.array(x), np.array(y)
    def get_min(self):
        return self.x[self.y.argmin()]
    def __call__(self, x, der=0):
        x = np.asarray(x)
        if der == 0:
            if self.x.ndim == 2:
                return self.y[[i for i in range(len(self.x)) if (self.x[i] == x).all()][0]]
            return self.y[[i for i in range(len(self.x)) if self.x[i] == x][0]] + (self.off if self.off > 50 else 0.0)
        if x.ndim == 0:
            return 0.5 * der + float(x) + self.y.sum()
        return np.arange(len(x)) + 10.0 * der + self.y * 2.0 + self.off

class PickAlpha(Pick):
    off = 3.0
class PickC(Pick):
    off = 5.0
class PickAx(Pick):
    off = 100.0

VOL = {1: lambda x: x[0] ** 3, 2: lambda x: 0.8 * x[0] ** 2 * x[1], 3: lambda x: x[0] * x[1] * x[2] * 0.9}

def qha_data(nax, npts, nT, nP):
    if nax == 1:
        ax = co_axis(3.0, 3.6, npts)[:, None]
    else:
        n = [npts] + [2] * (nax - 1)
        ax = np.array(list(itertools.product(*[co_axis(3.0 + i, 3.7 + i, m) if m > 1 else [3.0 + i] for i, m in enumerate(n)])))
    V = np.array([VOL[nax](a) for a in ax])
    c = np.median(V) * 1.01
    etot = 0.003 * (V - c) ** 2 + 0.05 * np.sin(np.arange(len(V)) * 2.0) * (nax > 1) - 10.0
    ph = []
    for i, v in enumerate(V):
        f = np.array([20.0, 150.0, 310.0, 600.0]) * (c / v) ** 1.5 + 3 * i
        ph.append(np.array([f, [0.001, 0.01, 0.006, 0.002]]).T)
    T = np.linspace(50.0, 900.0, nT) + 5 * np.sin(np.arange(nT))
    P = np.array([6.0, -3.0] if nP == 2 else [0.0, 7.0, 15.0, 2.0][:nP])
    return ax, V, etot, ph, T, P

def gen_qha(tier):
    for nax, case in ((1, None), (1, '1d'), (2, None), (2, '2d'), (2, '1d'), (3, '1d')):
        for npts in (3, 5):
            for nT in (6, 7):
                for nP in (1, 2, 4):
                    for flat in (0, 1) if nax == 1 else (0,):
                        for how in range(5):
                            yield [nax, case, npts, nT, nP, flat, how]

@chk.group(gen_qha)
def qha(case, ctx):
    nax, cs, npts, nT, nP, flat, how = case
    ax, V, etot, ph, T, P = qha_data(nax, npts, nT, nP)
    c = cs or '%id' % nax
    axin = ax[:, 0] if flat else ax
    b = freeze([axin, etot, ph, T, P])
    kw = {}
    if how == 1:
        kw = dict(dosarea=6.0)
    if cs:
        kw['case'] = cs
    g = thermo.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=axin, volfunc_ax=VOL[nax], **kw)
    for k, cl in (('1d-G', Pick), ('2d-G', Pick), ('1d-ax', PickAx), ('alpha', PickAlpha), ('C', PickC)):
        g.set_fitfunc(k, cl)
    check(raises(lambda: g.set_fitfunc('nope', Pick)), 'unknown fitfunc')
    pre = {1: '/ax0', 2: '/ax0-ax1', 3: '/ax0-ax1-ax2'}[nax]
    N = len(V)
    # reference
    R = {'/T/T': T, '/P/P': P, pre + pre: ax, pre + '/V': V, pre + '/Etot': etot}
    area = kw.get('dosarea')
    th = np.zeros((4, N, nT))
    for i in range(N):
        f, d = ph[i][:, 0], ph[i][:, 1]
        if area:
            d = d * area / trap(d, f)
        for t in range(nT):
            m = np.array([modes(x, T[t]) for x in f])
            for j in range(4):
                th[j, i, t] = trap(m[:, j] * d, f)
    F = {pre + '/T/F': etot[:, None] + th[1], pre + '/T/Fvib': th[1]}
    Fall = dict(F, **{pre + '/T/Evib': th[0], pre + '/T/Svib': th[2], pre + '/T/Cv': th[3]})
    Hh = np.array([[etot[i] + V[i] * p / GPA for i in range(N)] for p in P])
    extra = 0.0
    def opt(GG, prfx, sym):
        shp = GG.shape[:-1]
        out = {k: np.zeros(shp) for k in ('ax0', 'ax1', 'ax2', 'V', sym, 'B')}
        for idx in np.ndindex(*shp):
            y = GG[idx]
            i = int(np.argmin(y))
            if c == '1d':
                out['V'][idx] = V[i]; out[sym][idx] = y[i]
                for a in range(nax):
                    out['ax%i' % a][idx] = ax[i, a] + 100.0
                out['B'][idx] = V[i] * (1.0 + V[i] + y.sum()) * GPA
            else:
                out['ax0'][idx], out['ax1'][idx] = ax[i]
                out[sym][idx] = y[i]
                out['V'][idx] = V[i]
        for a in range(nax, 3):
            out['ax%i' % a] = None
        if c != '1d':
            out['B'] = None
        return {'/#opt%s/%s' % (prfx, k): v for k, v in out.items()}
    def cmp(got, exp, msg):
        check(set(got) == set(exp), lambda: '%s: keys %s' % (msg, sorted(set(got) ^ set(exp))))
        for k in sorted(exp):
            if exp[k] is None:
                check(got[k] is None, '%s: %s is not None' % (msg, k))
            else:
                check(got[k] is not None, '%s: %s is None' % (msg, k))
                check(np.shape(got[k]) == np.shape(exp[k]), '%s: shape of %s' % (msg, k))
                e = exp[k]
                if k.endswith('/T/Evib') and np.abs(got[k] - th[0]).max() > 1e-6:
                    # see group evib_units
                    e = th[1] + T * th[2]
                assert_close(got[k], e, '%s: %s' % (msg, k), rtol=1e-7, atol=1e-9)
    HH = dict(R, **{'/P%s/H' % pre: Hh})
    HH.update(opt(Hh, '/P', 'H'))
    def full(ff):
        FF = ff[pre + '/T/F']
        GG = np.array([[[FF[i, t] + V[i] * p / GPA for i in range(N)] for p in P] for t in range(nT)])
        out = dict(R, **ff)
        out.update(HH)
        out['/T/P%s/G' % pre] = GG
        o = opt(GG, '/T/P', 'G')
        out.update(o)
        for k in ('ax0', 'ax1', 'ax2', 'V'):
            x = o['/#opt/T/P/' + k]
            out['/#opt/T/P/alpha_' + k] = None if x is None else (np.arange(nT)[:, None] + 13.0 + 2.0 * x) / x
        gg = o['/#opt/T/P/G'] * EVJ / KB
        out['/#opt/T/P/Cp'] = -T[:, None] * (np.arange(nT)[:, None] + 25.0 + 2.0 * gg)
        return out
    if how in (0, 1):
        cmp(g.calc_F(), dict(R, **Fall), 'calc_F')
        cmp(g.calc_F(calc_all=False), dict(R, **F), 'calc_F short')
        cmp(g.calc_H(), HH, 'calc_H')
        cmp(g.calc_G(), full(Fall), 'calc_G')
    elif how == 2:
        a = g.calc_G()
        cmp(a, full(Fall), 'calc_G first')
        cmp(g.calc_G(calc_all=True), full(Fall), 'calc_G again')
        cmp(g.calc_H(), HH, 'calc_H after')
        cmp(g.calc_F(), dict(R, **Fall), 'calc_F after')
        cmp(a, full(Fall), 'earlier result')
    elif how == 3:
        # additional contributions to F
        r = g.calc_F()
        r[pre + '/T/F'] = r[pre + '/T/F'] - 0.3 * np.arange(N)[:, None] * T / 500.0
        ff = dict(Fall)
        ff[pre + '/T/F'] = Fall[pre + '/T/F'] - 0.3 * np.arange(N)[:, None] * T / 500.0
        cmp(g.calc_G(ret=r), full(ff), 'calc_G with F given')
    else:
        r = g.calc_G(calc_all=False)
        for k in F:
            assert_close(r[k], F[k], k, rtol=1e-7, atol=1e-9)
        assert_close(r['/T/P%s/G' % pre], full(F)['/T/P%s/G' % pre], 'G', rtol=1e-7, atol=1e-9)
        check(not any('#opt/T/P' in k for k in r), 'calc_all=False')
        r = g.calc_H(calc_all=False)
        assert_close(r['/P%s/H' % pre], Hh, 'H', rtol=1e-9)
    check(freeze([axin, etot, ph, T, P]) == b, 'arguments changed')

@chk.group(lambda tier: [[1], [2], [3]])
def evib_units(case, ctx):
    nax, = case
    ax, V, etot, ph, T, P = qha_data(nax, 3, 4, 2)
    pre = {1: '/ax0', 2: '/ax0-ax1', 3: '/ax0-ax1-ax2'}[nax]
    r = thermo.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax, volfunc_ax=VOL[nax], case='1d').calc_F()[pre + '/T/Evib']
    ref = np.array([thermo.HarmonicThermo(p[:, 0], p[:, 1], T, verbose=False).evib() for p in ph])
    mixed = np.array([h.fvib() + T * h.svib() for h in [thermo.HarmonicThermo(p[:, 0], p[:, 1], T, verbose=False) for p in ph]])
    if np.abs(r - ref).max() > 1e-6:
        check(False, 'Evib of calc_F() is no energy in eV', fid='gibbs-evib-units' if np.allclose(r, mixed, rtol=1e-10) else None)

def gen_kw(tier):
    for nax in (1, 2, 3):
        for skip in (None, True, False):
            for eps in (None, 120.0):
                for integ in (0, 1):
                    for fix in (None, 7.5):
                        yield [nax, skip, eps, integ, fix]

@chk.group(gen_kw)
def qha_options(case, ctx):
    """options of the harmonic part reach it"""
    nax, skip, eps, integ, fix = case
    ax, V, etot, ph, T, P = qha_data(nax, 3, 4, 2)
    ph = [np.vstack([[[-30.0, 0.004], [0.0, 0.0]], p]) for p in ph]
    kw = {}
    if skip is not None: kw['skipfreq'] = skip
    if eps is not None: kw['eps'] = eps
    if fix is not None: kw.update(fixnan=True, nanfill=fix)
    left = lambda y, x, axis=-1: np.moveaxis(np.moveaxis(y, axis, -1)[..., :-1] * np.diff(x), -1, 0).sum(axis=0)
    if integ: kw['integrator'] = left
    area = 6.0 if skip is not False and (nax + integ) % 2 else None
    if area: kw['dosarea'] = area
    b = freeze([ph, etot])
    pre = {1: '/ax0', 2: '/ax0-ax1', 3: '/ax0-ax1-ax2'}[nax]
    with np.errstate(all='ignore'):
        r = thermo.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax, volfunc_ax=VOL[nax], case='1d', **kw).calc_F()
    for i in range(len(V)):
        f, d = ph[i][:, 0], ph[i][:, 1]
        if skip in (None, True):
            m = f > (eps or 0.0)
            f, d = f[m], d[m]
        elif fix is None:
            continue
        if area:
            d = d * area / (float(left(d, f)) if integ else trap(d, f))
        for t in range(len(T)):
            with np.errstate(all='ignore'):
                y = []
                for x, w in zip(f, d):
                    e = H * C0 * 100 * x / (KB * T[t])
                    # log(2 sinh(e/2)), 0.5 e coth(e/2) - .., e^2/4/sinh^2
                    z = np.float64(e / 2)
                    lg = z + np.log1p(-np.exp(-2 * z))
                    y.append([w * lg * KB * T[t] / EVJ, w * (z / np.tanh(z) - lg), w * (e / 2) ** 2 / np.sinh(z) ** 2])
                y = np.array(y)
            alt = y
            if np.isnan(y).any():
                if fix is None:
                    continue
                # "NaNs during integration": of the integrand with or without
                # the factors which do not depend on the frequency
                fac = [KB * T[t] / EVJ, 1.0, (H * C0 * 100 / (2 * KB * T[t])) ** 2]
                alt = y.copy()
                for j in range(3):
                    m = np.isnan(y[:, j])
                    y[m, j] = fix * fac[j]
                    alt[m, j] = fix
            q = (lambda y: float(left(y, f))) if integ else (lambda y: trap(y, f))
            got = [r[pre + '/T/' + k][i, t] for k in ('Fvib', 'Svib', 'Cv')]
            for j, k in enumerate(('Fvib', 'Svib', 'Cv')):
                e1, e2 = q(y[:, j]), q(alt[:, j])
                assert_close(got[j], e1 if abs(got[j] - e1) <= abs(got[j] - e2) else e2, k, rtol=1e-8, atol=1e-10)
            assert_close(r[pre + '/T/F'][i, t], etot[i] + got[0], 'F', rtol=1e-9)
    check(freeze([ph, etot]) == b, 'arguments changed')

class Parab(eos.EVFunction):
    """a model of its own: the fit uses its functions and parameters"""
    def evaluate(self, v, p):
        return p['e0'] + 0.5 * p['b0'] / p['v0'] * (v - p['v0']) ** 2 + 1e-3 * p['b1'] * (v - p['v0']) ** 3 / p['v0'] ** 2
    def deriv(self, v, p, der=None):
        if der == 1:
            return p['b0'] / p['v0'] * (v - p['v0']) + 3e-3 * p['b1'] * (v - p['v0']) ** 2 / p['v0'] ** 2
        raise eos.MaxDerivException('der')

@chk.group(lambda tier: [[e0, b0, b1, v0, n, spl] for e0 in (-3.0, 5.0) for b0 in (0.5, 2.0) for b1 in (-4.0, 6.0) for v0 in (10.0, 40.0) for n in (8, 15) for spl in (None, 12, 1000)])
def own_model(case, ctx):
    e0, b0, b1, v0, n, spl = case
    v = v0 * co_axis(0.85, 1.2, n)
    m = Parab()
    p = dict(e0=e0, b0=b0, b1=b1, v0=v0)
    e = m(v, p)
    f = eos.EosFit(v, e, func=m, **({} if spl is None else dict(splpoints=spl)))
    assert_close([f.params[k] for k in ('e0', 'b0', 'b1', 'v0')], [e0, b0, b1, v0], 'parameters', rtol=1e-4)
    w = v0 * np.array([0.9, 1.0, 1.1])
    x = w - v0
    for der, ref in ((0, m(w, p)), (1, m(w, p, der=1)), (2, b0 / v0 + 6e-3 * b1 * x / v0 ** 2), (3, 6e-3 * b1 / v0 ** 2 + 0 * x)):
        assert_close(f(w, der=der), ref, 'der=%i' % der, rtol=1e-3, atol=1e-5 * b0 if der < 3 else 2e-2 * b0 / v0 ** 2)
    assert_close(f.pressure(w), -m(w, p, der=1) * GPA, 'pressure', rtol=1e-3, atol=1e-3 * b0)
    assert_close(f.bulkmod(w), w * (b0 / v0 + 6e-3 * b1 * x / v0 ** 2) * GPA, 'bulk modulus', rtol=2e-3)
    assert_close(f.get_min(), v0, 'minimum', rtol=1e-5)

def gen_def(tier):
    for nax, case in ((1, None), (2, None), (2, '1d'), (3, '1d')):
        for nP in (1, 3):
            for what in range(2):
                yield [nax, case, nP, what]

@chk.group(gen_def)
def qha_default_fits(case, ctx):
    """the built-in fits: optimum agrees with direct minimisation, expansion and heat
    capacity with finite differences along the T axis"""
    nax, cs, nP, what = case
    if nax == 1:
        ax = np.linspace(2.9, 3.7, 12)[:, None]
    elif nax == 2:
        ax = np.array(list(itertools.product(np.linspace(2.9, 3.6, 7), np.linspace(4.0, 4.8, 8)))) if cs is None else \
            np.array([np.linspace(2.9, 3.6, 12), np.linspace(4.0, 4.8, 12)]).T
    else:
        ax = np.array([np.linspace(2.9, 3.6, 12), np.linspace(4.0, 4.8, 12), np.linspace(5.0, 5.3, 12)]).T
    mid = ax.mean(axis=0)
    # separable quadratic, volume-dependent modes
    etot = 3.0 * ((ax - mid) ** 2).sum(axis=1) + (0.7 * (ax[:, 0] - mid[0]) * (ax[:, -1] - mid[-1]) if nax > 1 else 0) - 5.0
    g0 = [0.35 * (a[0] - mid[0]) + (0.2 * (a[-1] - mid[-1]) if nax > 1 else 0) for a in ax]
    ph = [np.array([np.array([300.0, 301.0]) * math.exp(-g), [3.0 * math.exp(g)] * 2]).T for g in g0]
    T = np.linspace(20.0, 800.0, 60)
    P = np.array([3.0, 0.5] if nP == 2 else [0.0, 2.0, 5.0][:nP])
    g = thermo.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax, volfunc_ax=VOL[nax], **({'case': cs} if cs else {}))
    if what == 1 and (nax == 1 or cs == '1d'):
        g.set_fitfunc('1d-G', lambda x, y: num.Spline(x, y, k=5, eps=1e-8))
    r = g.calc_G()
    V = np.array([VOL[nax](a) for a in ax])
    GG = r['/T/P' + {1: '/ax0', 2: '/ax0-ax1', 3: '/ax0-ax1-ax2'}[nax] + '/G']
    for t in range(0, len(T), 7):
        for p in range(nP):
            ctx.eval()
            y = GG[t, p]
            if nax == 2 and cs is None:
                f = np.array([[1, a, b, a * a, a * b, b * b, a ** 3, a * a * b, a * b * b, b ** 3] for a, b in (ax - mid)])
                co_ = np.linalg.lstsq(f, y, rcond=None)[0]
                def fn(q):
                    a, b = q - mid
                    return float(np.dot(co_, [1, a, b, a * a, a * b, b * b, a ** 3, a * a * b, a * b * b, b ** 3]))
                best = ax[y.argmin()].copy()
                h = 0.05
                while h > 1e-7:
                    c = [best + h * np.array(d) for d in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1))]
                    i = int(np.argmin([fn(q) for q in c]))
                    if i == 0:
                        h /= 2
                    best = c[i]
                assert_close([r['/#opt/T/P/ax0'][t, p], r['/#opt/T/P/ax1'][t, p]], best, 'optimal axes', rtol=0, atol=2e-3)
                assert_close(r['/#opt/T/P/G'][t, p], fn(best), 'G at the optimum', rtol=0, atol=2e-4)
                vopt = VOL[2](best)
                assert_close(r['/#opt/T/P/V'][t, p], VOL[2]([r['/#opt/T/P/ax0'][t, p], r['/#opt/T/P/ax1'][t, p]]), 'V', rtol=1e-12)
            else:
                x = (V - V.mean()) / V.std()
                q = np.polyfit(x, y, 5)
                xs = np.linspace(x.min(), x.max(), 200001)
                k = int(np.argmin(np.polyval(q, xs)))
                vopt = xs[k] * V.std() + V.mean()
                assert_close(r['/#opt/T/P/V'][t, p], vopt, 'optimal volume', rtol=5e-4 if what else 1e-4)
                assert_close(r['/#opt/T/P/G'][t, p], np.polyval(q, xs[k]), 'G', rtol=0, atol=2e-4 if what else 1e-5)
                bm = vopt * np.polyval(np.polyder(q, 2), xs[k]) / V.std() ** 2 * GPA
                assert_close(r['/#opt/T/P/B'][t, p], bm, 'bulk modulus', rtol=0.02)
                for a in range(nax):
                    assert_close(r['/#opt/T/P/ax%i' % a][t, p], np.interp(vopt, V, ax[:, a]), 'axis', rtol=0, atol=2e-3)
    for p in range(nP):
        for n in ['V'] + ['ax%i' % a for a in range(nax)]:
            x = r['/#opt/T/P/' + n][:, p]
            al = r['/#opt/T/P/alpha_' + n][:, p]
            ref = np.gradient(x, T) / x
            assert_close(al[5:-5], ref[5:-5], 'expansion of ' + n, rtol=0.05, atol=0.02 * abs(ref).max())
        Gm = r['/#opt/T/P/G'][:, p]
        cp = -T * np.gradient(np.gradient(Gm, T), T) * EVJ / KB
        assert_close(r['/#opt/T/P/Cp'][5:-5, p], cp[5:-5], 'Cp', rtol=0.05, atol=0.05 * abs(cp[5:-5]).max())
        # H: no vibrations
        y = etot + V * P[p] / GPA
        if nax == 1 or cs == '1d':
            check(abs(r['/#opt/P/H'][p] - y.min()) < 0.05, 'H')

@chk.group(lambda tier: [[i] for i in range(6)])
def refused(case, ctx):
    ctx.trivial()
    ax, V, etot, ph, T, P = qha_data(3 if case[0] == 0 else 2, 3, 6, 2)
    kw = dict(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax, volfunc_ax=VOL[ax.shape[1]])
    if case[0] == 0:
        check(raises(lambda: thermo.Gibbs(**kw).calc_G()), '3d fit')
    elif case[0] == 1:
        check(raises(lambda: thermo.Gibbs(**dict(kw, etot=etot[:-1]))), 'length of etot')
    elif case[0] == 2:
        check(raises(lambda: thermo.Gibbs(**dict(kw, phdos=ph[:-1]))), 'length of phdos')
    elif case[0] == 3:
        check(raises(lambda: thermo.Gibbs(**dict(kw, case='4d')).calc_G(), ValueError), 'unknown case')
    elif case[0] == 4:
        check(raises(lambda: thermo.Gibbs(**dict(kw, axes_flat=np.zeros((len(ph), 4)), volfunc_ax=lambda x: 1.0))), '4 axes')
    else:
        ax, V, etot, ph, T, P = qha_data(1, 3, 6, 2)
        check(raises(lambda: thermo.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax, volfunc_ax=VOL[1], case='2d').calc_H()), "case='2d' of 1d data")

def gen_deb(tier):
    for th in (100.0, 700.0, 1200.0):
        for al in (5e-6, 2e-5):
            for x0 in (1.0, 3.3):
                for fn in range(3):
                    for T in ([300.0], [5.0, 100.0, 2500.0]):
                        yield [th, al, x0, fn, T]

@chk.group(gen_deb)
def models(case, ctx):
    th, al, x0, fn, T = case
    T = np.array(T)
    func = [None, thermo.debye_func, thermo.einstein_func][fn]
    def deb(x):
        n = 4000
        t = [(i + 0.5) / n for i in range(n)]
        return 3 * math.fsum(s ** 3 / math.expm1(s * x) / n if s * x < 700 else 0.0 for s in t)
    ein = lambda x: 1 / math.expm1(x)
    with np.errstate(all='ignore'):
        kw = {} if func is None else dict(func=func)
        got = thermo.expansion(T, al, th, x0, **kw)
        ref = np.array([x0 * (1 + al * th * (ein if fn == 2 else deb)(th / t)) for t in T])
        # coarse default grid of the Debye integral
        assert_close(got - x0, ref - x0, 'expansion', rtol=0, atol=3e-3 * al * th * x0)
        for form in (list(T), tuple(T), float(T[0]), T.astype(int)):
            assert_close(thermo.expansion(form, al, th, x0, **kw), got[:np.size(form)], 'form of temp', rtol=1e-13)
        if fn != 2:
            for x in th / T:
                for nst, zero in ((2, 1e-8), (7, 1e-3), (50, 1e-8), (100, 1e-8)):
                    tt = [zero + (1 - zero) * i / (nst - 1.0) for i in range(nst)]
                    assert_close(thermo.debye_func(x, nstep=nst, zero=zero)[0], 3 * trap([t ** 3 / (math.exp(t * x) - 1) for t in tt], tt), 'nstep', rtol=1e-9)
                a = thermo.debye_func(x, nstep=20000)
                check(np.shape(a) == (1,), 'shape')
                assert_close(a[0], deb(x), 'debye', rtol=1e-4)
            assert_close(thermo.debye_func(th / T, nstep=5000), [thermo.debye_func(x, nstep=5000)[0] for x in th / T], 'array', rtol=1e-12)
        else:
            assert_close(thermo.einstein_func(th / T), [ein(x) for x in th / T], 'einstein', rtol=1e-12)
        if len(T) > 1:
            check(raises(lambda: thermo.debye_func(np.ones((2, 2)))), '2d')
