"""P20: velocity and scalar autocorrelations, power spectra."""
import itertools, os
import numpy as np
from scipy.integrate import simpson
from mc import *
import co, omprace
from pwtools import pydos, signal, crys, _flib

chk = Check('P20', level='exploration',
    rule='Autocorrelations are quadratic forms: every implementation is run on all unit impulses and all sums of two impulses of a bounded space (which determines the form on every input of that size), plus generic data, for all step/atom counts, mass vectors, normalisations, memory layouts and thread counts. Power spectra on all combinations of steps, atoms, masses, window, padding, mirroring, dt, area. The threaded Fortran kernels are analysed for unordered conflicting accesses (one equivalence class of schedules). Non-trivial: more than one step.',
    assumptions=['an implementation is a quadratic form in the data (exact for the impulses and generic data that were run)',
                 'spectra that vanish identically (all velocities zero after windowing) are not normalised'])

def ref_acorr(v):
    n = len(v)
    return np.array([sum(float(v[j]) * float(v[j + t]) for j in range(n - t)) for t in range(n)])

def ref_vacf(vel, m):
    """sum over the diagonals of the matrix of all products"""
    n = len(vel)
    v = vel * np.sqrt(m)[None, :, None]
    v = v.reshape(n, -1)
    g = np.array([[float((v[i] * v[j]).sum()) for j in range(n)] for i in range(n)]) if n < 5 else v.dot(v.T)
    return np.array([np.trace(g, offset=t) for t in range(n)])

def gen_acorr(tier):
    N = 9 if tier == 'quick' else 24
    for n in range(1, N + 1):
        for method in range(1, 8):
            yield [n, method]
    for n in (16, 17, 31, 32, 33, 64, 100):
        for method in range(1, 8):
            yield [n, method]

@chk.group(gen_acorr)
def acorr(case, ctx):
    n, method = case
    vs = [np.eye(n)[i] for i in range(n)]
    if n <= 24:
        vs += [np.eye(n)[i] + np.eye(n)[j] for i in range(n) for j in range(i)]
    vs += [co.gen_arr((n,), s) for s in range(4)]
    vs += [np.arange(1, n + 1), co.gen_arr((2 * n,), 3)[::2], co.gen_arr((n,), 2)[::-1]]
    for v in vs:
        for norm in (True, False):
            ctx.eval()
            exp = ref_acorr(v)
            b = freeze(v)
            for kw in ([dict(method=method, norm=norm)] + ([dict(norm=norm)] if method == 7 else [])):
                got = signal.acorr(v, **kw)
                check(freeze(v) == b, 'argument changed')
                assert_close(got, exp / exp[0] if norm else exp, 'method %i norm %s n=%i' % (method, norm, n), rtol=1e-10, atol=1e-12 * n * max(1.0, exp[0] if not norm else 1))
    check(raises(lambda: signal.acorr(np.ones(3), method=8)), 'unknown method')

IMPL = [('py', 1), ('py', 2), ('py', 3), ('f', 1), ('f', 2)]

def call_vacf(impl, vel, m, nthreads):
    k, method = impl
    if k == 'py':
        return pydos.pyvacf(vel, m=m, method=method)
    return pydos.fvacf(vel, m=m, method=method, nthreads=nthreads)

def gen_vacf(tier):
    sh = [(1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 3)] if tier == 'quick' else list(itertools.product(range(1, 7), range(1, 5)))
    for (n, na), impl, mass in itertools.product(sh, IMPL, (0, 1, 2)):
        if mass == 2 and na == 1:
            continue
        for nt in ((None, 1, 2, 3, 7) if impl[0] == 'f' else (None,)):
            yield [n, na, impl, mass, nt]
    for (n, na), impl, mass in itertools.product([(11, 5), (16, 2), (33, 3)], IMPL, (0, 2)):
        for nt in ((None, 2, 4, 16) if impl[0] == 'f' else (None,)):
            yield [n, na, impl, mass, nt]

@chk.group(gen_vacf)
def vacf(case, ctx):
    n, na, impl, mass, nt = case
    m = None if mass == 0 else (np.full(na, 2.5) if mass == 1 else np.abs(co.gen_arr((na,), 4)) * 20 + 0.5)
    mm = np.ones(na) if m is None else m
    d = n * na * 3
    vs = []
    if d <= 36:
        E = np.eye(d)
        vs += [E[i] for i in range(d)] + [E[i] + E[j] for i in range(d) for j in range(i)]
    vs += [co.gen_arr((d,), s) for s in range(3)]
    vs = [v.reshape(n, na, 3) for v in vs]
    # memory layouts
    g = co.gen_arr((n, na, 3), 7)
    vs += [np.asfortranarray(g), co.gen_arr((2 * n, na, 3), 8)[::2], co.gen_arr((na, n, 3), 9).transpose(1, 0, 2), g[::-1]]
    if n == 1:
        ctx.trivial()
    for v in vs:
        ctx.eval()
        b = freeze(np.array(v))
        bm = freeze(m)
        exp = ref_vacf(v, mm)
        got = call_vacf(impl, v, m, nt)
        check(freeze(np.array(v)) == b and freeze(m) == bm, 'arguments changed')
        assert_close(got, exp / exp[0], 'vacf %s mass %i threads %s' % (impl, mass, nt), rtol=1e-10, atol=1e-12)

def gen_env(tier):
    for nt in ('1', '2', '5'):
        yield [nt]

@chk.group(gen_env)
def vacf_env(case, ctx):
    """thread number from the environment, defaults"""
    old = os.environ.get('OMP_NUM_THREADS')
    v = co.gen_arr((8, 3, 3), 1)
    try:
        os.environ['OMP_NUM_THREADS'] = case[0]
        e = ref_vacf(v, np.ones(3))
        assert_close(pydos.fvacf(v), e / e[0], 'default', rtol=1e-10, atol=1e-12)
        assert_close(pydos.pyvacf(v), e / e[0], 'default', rtol=1e-10, atol=1e-12)
        del os.environ['OMP_NUM_THREADS']
        assert_close(pydos.fvacf(v), e / e[0], 'default', rtol=1e-10, atol=1e-12)
    finally:
        if old is not None:
            os.environ['OMP_NUM_THREADS'] = old

# ---- velocities from coordinates -------------------------------------------
def gen_vel(tier):
    for n, na, dt, ep in itertools.product(range(3, 9 if tier == 'quick' else 16), (1, 2, 5), (1.0, 0.25, 20.0), (True, False)):
        yield [n, na, dt, ep]

@chk.group(gen_vel)
def velocities(case, ctx):
    n, na, dt, ep = case
    c = co.gen_arr((n, na, 3), 3, -3, 9)
    e = co.velocity(c, dt)
    b = freeze(c)
    got = crys.velocity_traj(c, dt=dt, endpoints=ep) if not ep or n % 2 else crys.velocity_traj(c, dt=dt)
    check(freeze(c) == b, 'argument changed')
    assert_close(got, e if ep else e[1:-1], 'velocity_traj', rtol=1e-10, atol=1e-12)
    if ep:
        tr = crys.Trajectory(coords=c, symbols=['H'] * na, timestep=dt, cell=co.CELLS['tri'])
        x = ref_vacf(e, np.ones(na))
        assert_close(pydos.fvacf(tr.velocity), x / x[0], 'vacf of trajectory velocities', rtol=1e-9, atol=1e-10)
        f1, d1 = pydos.pdos(tr.velocity, dt=tr.timestep, m=tr.mass)
        f2, d2 = pydos.pdos(e, dt=dt, m=np.full(na, co.MASS['H']))
        assert_close(f1, f2, 'pdos axis', rtol=1e-10)
        assert_close(d1, d2, 'pdos', rtol=1e-8, atol=1e-10)

# ---- power spectra ----------------------------------------------------------
def dft(x):
    n = len(x)
    k = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(k, k) / n).dot(x)

def welch(n):
    return np.array([1.0 - ((i - 0.5 * (n - 1)) / (0.5 * (n - 1))) ** 2 for i in range(n)])

def freqs(n, dt):
    return np.array([(k if k < (n + 1) // 2 else k - n) / (n * dt) for k in range(n)])

def gen_direct(tier):
    ns = [5, 6, 8, 9, 16] if tier == 'quick' else list(range(4, 21)) + [32, 33]
    for n, na, mass, win, npad, tonext, dt, area, full in itertools.product(ns, (1, 3), (0, 1), (True, False), (None, 0, 1, 2, 5), (False, True), (1.0, 0.2), (1.0, 12.5), (False, True)):
        if npad is None and tonext:
            continue
        if tier == 'quick' and (area != 1.0) != (dt != 1.0):
            continue
        yield [n, na, mass, win, npad, tonext, dt, area, full]

@chk.group(gen_direct)
def direct(case, ctx):
    n, na, mass, win, npad, tonext, dt, area, full = case
    vel = co.gen_arr((n, na, 3), 5)
    m = np.abs(co.gen_arr((na,), 6)) * 10 + 1 if mass else None
    b = freeze([vel, m])
    kw = dict(dt=dt, m=m, area=area, window=win, full_out=full)
    out = pydos.pdos(vel, npad=npad, tonext=tonext, **kw)
    wr = [pydos.direct_pdos(vel, npad=npad, tonext=tonext, **kw), pydos.direct_pdos(vel, npad=npad, pad_tonext=tonext, **kw),
          pydos.pdos(vel, npad=npad, tonext=tonext, method='direct', **kw)]
    if npad == 1:
        wr.append(pydos.direct_pdos(vel, tonext=tonext, **kw))
    if not tonext:
        wr.append(pydos.direct_pdos(vel, npad=npad, **kw))
    for o2 in wr:
        ctx.eval()
        check(len(o2) == len(out), 'direct_pdos()')
        for u, v in zip(o2, out):
            v = np.asarray(v, dtype=float)
            assert_close(u, v, 'direct_pdos() differs from pdos()', rtol=1e-10, atol=1e-10 * np.abs(v).max())
    check(freeze([vel, m]) == b, 'arguments changed')
    w = vel * welch(n)[:, None, None] if win else vel
    N = n + (n - 1) * (npad or 0)
    if npad is not None and tonext:
        p = 1
        while p < N:
            p *= 2
        N = p
    mm = np.ones(na) if m is None else m
    P = np.zeros(N)
    for i in range(na):
        for k in range(3):
            x = np.zeros(N)
            x[:n] = w[:, i, k]
            P += mm[i] * np.abs(dft(x)) ** 2
    F = freqs(N, dt)
    h = N // 2
    assert_close(out[0], F[:h], 'frequency axis', rtol=1e-12)
    check(out[1].shape == (h,), lambda: 'shape %s' % (out[1].shape,))
    assert_close(simpson(out[1], x=out[0]), area, 'area', rtol=1e-8)
    s = out[1].max() / P[:h].max()
    assert_close(out[1], P[:h] * s, 'spectrum', rtol=1e-8, atol=1e-9 * out[1].max())
    if full:
        check(len(out) == 5, 'full_out')
        ff, fp, sp = out[2:]
        assert_close(ff, F, 'full axis', rtol=1e-12)
        check(sp == h, 'split index')
        assert_close(fp, P, 'full spectrum', rtol=1e-9, atol=1e-9 * P.max())
    else:
        check(len(out) == 2, 'number of results')

def gen_route(tier):
    ns = [5, 8, 9, 16] if tier == 'quick' else list(range(4, 21)) + [32, 33]
    for n, na, mass, win, mirr, dt, area, full in itertools.product(ns, (1, 3), (0, 1), (True, False), (False, True), (1.0, 0.2), (1.0, 12.5), (False, True)):
        yield [n, na, mass, win, mirr, dt, area, full]

@chk.group(gen_route)
def vacf_route(case, ctx):
    n, na, mass, win, mirr, dt, area, full = case
    vel = co.gen_arr((n, na, 3), 5)
    m = np.abs(co.gen_arr((na,), 6)) * 10 + 1 if mass else None
    mm = np.ones(na) if m is None else m
    b = freeze([vel, m])
    kw = dict(dt=dt, m=m, area=area, window=win, full_out=full)
    out = pydos.pdos(vel, method='vacf', mirr=mirr, **kw)
    for o2 in [pydos.vacf_pdos(vel, mirr=mirr, **kw)] + ([pydos.vacf_pdos(vel, **kw)] if mirr else []):
        assert_close(o2[0], out[0], 'vacf_pdos() differs from pdos(), axis', rtol=1e-12)
        check(len(o2) == len(out), 'vacf_pdos()')
        assert_close(o2[1], out[1], 'vacf_pdos() differs from pdos()', rtol=1e-10, atol=1e-10 * out[1].max())
    check(freeze([vel, m]) == b, 'arguments changed')
    w = vel * welch(n)[:, None, None] if win else vel
    c = ref_vacf(w, mm)
    c = c / c[0]
    x = np.concatenate((c[:0:-1], c)) if mirr else c
    N = len(x)
    h = N // 2
    P = np.abs(dft(x))
    F = freqs(N, dt)
    assert_close(out[0], F[:h], 'frequency axis', rtol=1e-12)
    assert_close(simpson(out[1], x=out[0]), area, 'area', rtol=1e-8)
    s = out[1].max() / P[:h].max()
    assert_close(out[1], P[:h] * s, 'spectrum', rtol=1e-8, atol=1e-9 * out[1].max())
    if full:
        ff, fp, sp, vc, fv = out[2:]
        assert_close(ff, F, 'full axis', rtol=1e-12)
        check(sp == h, 'split index')
        assert_close(fp, P, 'full spectrum', rtol=1e-9, atol=1e-9 * P.max())
        assert_close(vc, c, 'vacf', rtol=1e-9, atol=1e-11)
        assert_close(np.abs(fv), P, 'fft of vacf', rtol=1e-9, atol=1e-9)
    if mirr:
        # both routes give the same spectrum
        f2, p2 = pydos.direct_pdos(vel, dt=dt, m=m, area=area, window=win)
        assert_close(f2, out[0], 'axes of both routes', rtol=1e-12)
        assert_close(p2, out[1], 'both routes', rtol=1e-7, atol=1e-8 * out[1].max())
    check(raises(lambda: pydos.pdos(vel, method='vacf', npad=2)), 'npad with vacf')
    if m is not None:
        check(raises(lambda: pydos.pdos(vel, m=np.ones(na + 1))), 'wrong number of masses')

# ---- all schedules -----------------------------------------------------------
RACE = r'''
import ctypes
lib = ctypes.CDLL(_flib.__file__)
from pwtools import pydos
for n, na in ((1, 1), (2, 1), (3, 2), (7, 3)):
    rng = np.random.RandomState(n)
    v = rng.rand(n, na, 3) - 0.5
    m = rng.rand(na) + 1
    for nt in (1, 2, 4):
        for method in (1, 2):
            for mm in (None, m):
                a = pydos.fvacf(v, m=mm, method=method, nthreads=nt)
                b = pydos.pyvacf(v, m=mm)
                assert np.allclose(a, b, atol=1e-12), (n, na, nt, method)
print('ALLOK')
'''

def gen_race(tier):
    yield ['vacf']

@chk.group(gen_race)
def schedules(case, ctx):
    omprace.require(omprace.run(ctx.tmp(), RACE), ctx, 'vacf')
