"""P21: signal helpers."""
import itertools, math
import numpy as np
from mc import *
import co
from pwtools import signal, crys

chk = Check('P21', level='exploration',
    rule='All array shapes up to a size x all axes (positive and negative) x all kernel lengths, edge treatments, paddings, mirror and Fourier calls against explicit element loops; all integer sequences up to a length (no plateaus excluded) for peak finding. Non-trivial: more than one element along the axis.',
    assumptions=['mirrored edges: kernel reaches no further than the data', 'a peak exactly at the threshold may go either way'])

# ---- smoothing ----------------------------------------------------------------
def ext(x, i, edge):
    n = len(x)
    if edge == 'c':
        return x[min(max(i, 0), n - 1)]
    if i < 0:
        i = -i
    if i > n - 1:
        i = 2 * (n - 1) - i
    return x[i]

def ref_smooth1(x, k, edge, norm):
    M = len(k)
    kk = np.array(k, dtype=float)
    if norm:
        kk = kk / kk.sum()
    c = (M - 1) // 2        # even kernels: shifted to the right
    return np.array([sum(kk[j] * ext(x, i + c - j, edge) for j in range(M)) for i in range(len(x))])

def gen_smooth(tier):
    N = 9 if tier == 'quick' else 16
    for n, M, edge, norm in itertools.product(range(1, N), range(1, N + 3), 'mc', (True, False)):
        yield [n, M, edge, norm]

@chk.group(gen_smooth)
def smooth1d(case, ctx):
    n, M, edge, norm = case
    if n == 1:
        ctx.trivial()
    for s in range(3):
        ctx.eval()
        x = co.gen_arr((n,), s, -3, 8)
        k = np.abs(co.gen_arr((M,), 9 + s)) + 0.1
        if s == 2:
            # kernels with negative parts (derivative and sharpening filters)
            k = co.gen_arr((M,), 9)
            k[M // 2] += M
        b = freeze([x, k])
        y = signal.smooth(x, k, edge=edge, norm=norm) if s else signal.smooth(x, k, axis=-1, edge=edge, norm=norm)
        check(freeze([x, k]) == b, 'arguments changed')
        check(y.shape == x.shape, lambda: 'shape %s' % (y.shape,))
        if edge == 'c' or M // 2 <= n - 1:
            assert_close(y, ref_smooth1(x, k, edge, norm), 'smooth n=%i M=%i' % (n, M), rtol=1e-9, atol=1e-10)
        if edge == 'm' and norm and M // 2 <= n - 1:
            assert_close(signal.smooth(x, k), y, 'defaults', rtol=1e-12, atol=1e-12)

def gen_smoothnd(tier):
    shapes = [(5, 2), (2, 6), (4, 2, 3), (2, 5, 2), (3, 1, 6)]
    for sh in shapes:
        for ax in range(len(sh)):
            for M, edge, norm, neg in itertools.product(range(1, 5), 'mc', (True, False), (0, 1)):
                yield [list(sh), ax, M, edge, norm, neg]

@chk.group(gen_smoothnd)
def smoothnd(case, ctx):
    sh, ax, M, edge, norm, neg = case
    x = co.gen_arr(tuple(sh), 2, -3, 8)
    k = np.abs(co.gen_arr((M,), 9)) + 0.1
    ks = [1] * len(sh)
    ks[ax] = M
    y = signal.smooth(x, k.reshape(ks), axis=ax - len(sh) if neg else ax, edge=edge, norm=norm)
    check(y.shape == x.shape, 'shape')
    if edge == 'm' and M // 2 > sh[ax] - 1:
        return
    e = np.apply_along_axis(lambda v: ref_smooth1(v, k, edge, norm), ax, x)
    assert_close(y, e, 'smooth', rtol=1e-9, atol=1e-10)

def gen_trs(tier):
    for n, M, method, cellv in itertools.product((4, 7), (1, 2, 3, 4), (1, 2), (0, 1)):
        yield [n, M, method, cellv]

@chk.group(gen_trs)
def smooth_traj(case, ctx):
    n, M, method, cellv = case
    cell = co.CELLS['tri']
    tr = crys.Trajectory(coords=co.gen_arr((n, 2, 3), 1, 0, 4), symbols=['Al', 'N'], timestep=2.0,
                         cell=co.vcells(cell, n, amp=0.05 * cellv) if cellv else np.array([cell] * n), etot=co.gen_arr((n,), 3),
                         forces=co.gen_arr((n, 2, 3), 4), stress=co.gen_arr((n, 3, 3), 5))
    before = {a: freeze(getattr(tr, a)) for a in tr.attr_lst}
    k = np.abs(co.gen_arr((M,), 9)) + 0.1
    out = crys.smooth(tr, k, method=method)
    check({a: freeze(getattr(tr, a)) for a in tr.attr_lst} == before, 'the trajectory was changed')
    for a in tr.attr_lst:
        x, y = getattr(tr, a), getattr(out, a)
        if x is None:
            check(y is None, lambda: a + ' appeared')
        elif a in tr.attrs_nstep:
            e = np.apply_along_axis(lambda v: ref_smooth1(v, k, 'm', True), 0, x)
            assert_close(y, e, a, rtol=1e-9, atol=1e-9)
        else:
            check(freeze(x) == freeze(y), lambda: a + ' differs')
    check(raises(lambda: crys.smooth(tr, k[:, None])), '2d kernel')

# ---- padding, mirror ------------------------------------------------------------
SH = [(1,), (2,), (3,), (5,), (8,), (9,), (2, 3), (4, 1), (3, 2, 4)]

def axes(sh):
    return list(range(-len(sh), len(sh)))

def gen_pad(tier):
    for sh in SH:
        for ax in axes(sh):
            n = sh[ax]
            opts = [dict()] + [dict(nadd=i) for i in range(0, 4)] + [dict(upto=n + i) for i in range(0, 4)] + [dict(tonext=True), dict(tonext=False)]
            opts += [dict(tonext=True, tonext_min=n + i) for i in (0, 1, 4, 9)] + [dict(tonext=False, nadd=2), dict(tonext=False, upto=n + 1)]
            for o in opts:
                for where in (None, 'end', 'start'):
                    yield [list(sh), ax, o, where]

@chk.group(gen_pad)
def padding(case, ctx):
    sh, ax, o, where = case
    for dt in (float, int, complex):
        ctx.eval()
        x = (np.arange(1, int(np.prod(sh)) + 1) * (1 + 0j if dt is complex else 1)).reshape(sh).astype(dt)
        b = freeze(x)
        kw = dict(o)
        if where:
            kw['where'] = where
        y = signal.pad_zeros(x, axis=ax, **kw)
        check(freeze(x) == b, 'argument changed')
        n = sh[ax]
        if o.get('nadd') is not None:
            N = n + o['nadd']
        elif o.get('upto') is not None:
            N = o['upto']
        elif o.get('tonext'):
            N = 1
            while N < o.get('tonext_min', n):
                N *= 2
        else:
            N = 2 * n
        es = list(sh); es[ax] = N
        e = np.zeros(es, dtype=dt)
        sl = [slice(None)] * len(sh)
        sl[ax] = slice(N - n, N) if where == 'start' else slice(0, n)
        e[tuple(sl)] = x
        check(y.dtype == x.dtype, 'dtype')
        assert_equal(y, e, 'pad_zeros')

def gen_padbad(tier):
    for i in range(4):
        yield [i]

@chk.group(gen_padbad)
def padding_refused(case, ctx):
    x = np.arange(4.0)
    f = [lambda: signal.pad_zeros(x, nadd=1, upto=8), lambda: signal.pad_zeros(x, upto=3),
         lambda: signal.pad_zeros(x, nadd=1, where='middle'), lambda: signal.pad_zeros(x, tonext=True, nadd=3)][case[0]]
    check(raises(f) is not None, 'request that does not fit is accepted')

def gen_mirror(tier):
    for sh in SH:
        for ax in axes(sh):
            yield [list(sh), ax]

@chk.group(gen_mirror)
def mirror_fft(case, ctx):
    sh, ax = case
    x = co.gen_arr(tuple(sh), 1)
    b = freeze(x)
    y = signal.mirror(x, axis=ax)
    e = np.apply_along_axis(lambda v: np.array([v[abs(i)] for i in range(-(len(v) - 1), len(v))]), ax, x)
    assert_equal(y, e, 'mirror')
    if ax == 0:
        assert_equal(signal.mirror(x), e, 'mirror default axis')
    y = signal.fft_1d_loop(x, axis=ax)
    def d(v):
        n = len(v)
        return np.array([sum(v[j] * np.exp(-2j * np.pi * j * k / n) for j in range(n)) for k in range(n)])
    e = np.apply_along_axis(d, ax, x.astype(complex))
    assert_close(y, e, 'fft_1d_loop', rtol=1e-9, atol=1e-10)
    if ax == -1:
        assert_close(signal.fft_1d_loop(x), e, 'fft_1d_loop default axis', rtol=1e-9, atol=1e-10)
    check(freeze(x) == b, 'argument changed')
    if len(sh) == 1:
        for m in ('loop', 'matmul'):
            im = co.gen_arr(tuple(sh), 2)
            for z in (x, x + 1j * im, x + 1j * im * (np.arange(sh[0]) % 2), 1j * im):
                assert_close(signal.dft(z, method=m), d(z), 'dft ' + m, rtol=1e-9, atol=1e-10)
        assert_close(signal.dft(x), d(x), 'dft', rtol=1e-9, atol=1e-10)
        for dt in (1.0, 0.25):
            f, g = signal.ezfft(x, dt=dt)
            n = sh[0]
            assert_close(f, [k / (n * dt) for k in range(n // 2)], 'ezfft axis')
            assert_close(g, d(x)[:n // 2], 'ezfft', rtol=1e-9, atol=1e-10)
        check(raises(lambda: signal.dft(x, method='x')), 'unknown method')

# ---- windows and formulas ---------------------------------------------------------
def gen_win(tier):
    for M, sym in itertools.product(range(0, 40), (1, 0, True, False)):
        yield [M, sym if not isinstance(sym, bool) else str(sym)]

@chk.group(gen_win)
def windows(case, ctx):
    M, sym = case
    sym = {'True': True, 'False': False}.get(sym, sym)
    N = M + 1 if (not sym and M % 2 == 0 and M > 1) else M
    def fin(w):
        return np.array(w[:M])
    w = signal.welch(M, sym)
    if M <= 1:
        check(w.shape == (max(M, 0),) and (w == 1).all(), lambda: 'welch(%i) = %s' % (M, w))
    else:
        e = fin([1 - ((i - (N - 1) / 2.0) / ((N - 1) / 2.0)) ** 2 for i in range(N)])
        assert_close(w, e, 'welch', rtol=1e-12, atol=1e-13)
    for std in (0.5, 1.0, 7.0):
        for f in (signal.lorentz, signal.cauchy):
            w = f(M, std=std, sym=sym)
            if M <= 1:
                check(w.shape == (max(M, 0),) and (w == 1).all(), 'lorentz')
            else:
                r = [std / ((i - (N - 1) / 2.0) ** 2 + std ** 2) for i in range(N)]
                assert_close(w, fin(np.array(r) / max(r)), 'lorentz', rtol=1e-12, atol=1e-13)
    for add in (1, -1):
        check(signal.odd(M, add) == (M if M % 2 else M + add), 'odd')
    check(signal.odd(M) == (M if M % 2 else M + 1), 'odd')
    check(raises(lambda: signal.odd(3, add=2)), 'odd: add')

def gen_form(tier):
    for a, b, mirr in itertools.product((0.5, 1.0, 10.0, 333.0), (0.01, 0.25, 7.0, 100.0), (False, True)):
        yield [a, b, mirr]

@chk.group(gen_form)
def formulas(case, ctx):
    a, b, mirr = case
    f = 2.0 if mirr else 1.0
    dt, N = signal.fftsample(a, b, mode='f', mirr=mirr)
    assert_close(dt, 1 / (2 * a), 'dt'); assert_close(N, 2 * a / b / f, 'N', rtol=1e-12)
    back = signal.fftsample(dt, N, mode='t', mirr=mirr)
    assert_close(back, [a, b], 'inverse', rtol=1e-12)
    fm, df = signal.fftsample(a, b, mode='t', mirr=mirr)
    assert_close(fm, 0.5 / a, 'fmax'); assert_close(df, 1 / (a * b * f), 'df', rtol=1e-12)
    if not mirr:
        assert_close(signal.fftsample(a, b), [dt, N], 'default mode')
    check(raises(lambda: signal.fftsample(1, 1, mode='x')), 'mode')
    x = np.linspace(-3, 5, 9)
    for norm in (True, False):
        e = [math.exp(-v * v / (2 * a * a)) * (1 / (a * math.sqrt(2 * math.pi)) if norm else 1) for v in x]
        assert_close(signal.gauss(x, std=a, norm=norm), e, 'gauss', rtol=1e-12, atol=1e-14)
    y = co.gen_arr((7,), 2) * b + a
    yb = freeze(y)
    s = signal.scale(y)
    check(freeze(y) == yb, 'scale changed its argument')
    assert_close(s, (y - min(y)) / (max(y) - min(y)), 'scale', rtol=1e-9, atol=1e-12)

# ---- peaks -------------------------------------------------------------------------
def gen_peaks(tier):
    L = 7 if tier == 'quick' else 8
    for first in itertools.product(range(4), repeat=2):
        for n in range(3, L + 1):
            yield [list(first), n]

@chk.group(gen_peaks)
def peaks(case, ctx):
    first, n = case
    for rest in itertools.product(range(4), repeat=n - 2):
        y = np.array(list(first) + list(rest), dtype=float)
        loc = [i for i in range(1, n - 1) if y[i] > y[i - 1] and y[i] > y[i + 1]]
        for ymin in (None, 0.5, 1.5, 2.5):
            ctx.eval()
            idx, pos = signal.find_peaks(y, ymin=ymin)
            e = [i for i in loc if ymin is None or y[i] > ymin]
            check(list(idx) == e and pos is None, lambda: 'y=%s ymin=%s: %s expected %s' % (y, ymin, list(idx), e))
            if ymin is not None:
                # threshold zero, and all values negative
                check(list(signal.find_peaks(y - ymin, ymin=0.0)[0]) == e and list(signal.find_peaks(y - 7, ymin=ymin - 7)[0]) == e, lambda: 'y=%s shifted, ymin=%s' % (y, ymin))

def gen_pos(tier):
    for p, n, ymin, sc, k in itertools.product(range(1, 11), (12, 13), (None, 0.5), (1.0, 0.01), (2, 3)):
        yield [p, n, ymin, sc, k]

@chk.group(gen_pos)
def peak_positions(case, ctx):
    """positions from the spline: parabolas of known vertex anywhere in the data"""
    p, n, ymin, sc, k = case
    for off in (0.0, 0.2, -0.3, 0.45):
        ctx.eval()
        x = np.arange(n) * sc + 3.0
        x0 = x[p] + off * sc
        y = 1.0 - ((x - x0) / sc) ** 2 * 0.05
        b = freeze([x, y])
        idx, pos = signal.find_peaks(y, x, ymin=ymin, k=k)
        check(freeze([x, y]) == b, 'arguments changed')
        check(list(idx) == [p], lambda: 'peak %s expected %s' % (idx, p))
        check(len(pos) == 1, 'one position')
        assert_close(pos[0], x0, 'position', rtol=0, atol=1e-5 * sc)

# ---- filters -------------------------------------------------------------------------
def gen_fir(tier):
    for mode, spec, nyq in itertools.product(('lowpass', 'highpass', 'bandpass', 'bandstop'), ('ntaps', 'kaiser'), (1.0, 100.0, 3e12)):
        yield [mode, spec, nyq]

@chk.group(gen_fir)
def filters(case, ctx):
    mode, spec, nyq = case
    c = 0.4 * nyq if mode in ('lowpass', 'highpass') else [0.3 * nyq, 0.6 * nyq]
    kw = dict(ntaps=101) if spec == 'ntaps' else dict(ripple=80, width=0.06 * nyq)
    if mode == 'bandstop' and spec == 'ntaps':
        kw['ntaps'] = 100
    try:
        f = signal.FIRFilter(c, nyq, mode=mode, **kw)
    except ValueError:
        # an even number of coefficients is documented as impossible here
        check(spec == 'kaiser' and mode in ('highpass', 'bandstop'), 'refused')
        ctx.trivial()
        return
    def g(fr):
        w = math.pi * fr
        return abs(sum(t * np.exp(-1j * w * i) for i, t in enumerate(f.taps)))
    for fr in np.arange(0.05, 1.0, 0.05):
        lo, hi = (c / nyq, None) if mode in ('lowpass', 'highpass') else (c[0] / nyq, c[1] / nyq)
        if min(abs(fr - lo), abs(fr - hi) if hi else 1) < 0.06:
            continue
        ins = (fr < lo) if hi is None else (lo < fr < hi)
        want = {'lowpass': ins, 'highpass': not ins, 'bandpass': ins, 'bandstop': not ins}[mode]
        check(abs(g(fr) - (1.0 if want else 0.0)) < 0.02, lambda: '%s: gain at %.2f is %.3f, passed: %s' % (mode, fr, g(fr), want))
    check(len(f.w) == len(f.h), 'frequency response')
    for w, h in list(zip(f.w, f.h))[::50]:
        check(abs(abs(h) - g(w / nyq)) < 1e-8, 'frequency response')
    # application = convolution
    for axis, x in ((-1, co.gen_arr((40,), 1)), (0, co.gen_arr((30, 2), 2)), (1, co.gen_arr((2, 30), 3)), (-1, co.gen_arr((2, 30), 4))):
        ctx.eval()
        y = f(x, axis=axis)
        e = np.apply_along_axis(lambda v: np.convolve(v, f.taps)[:len(v)], axis, x)
        assert_close(y, e, 'filter', rtol=1e-9, atol=1e-10)
