"""P27: k-grids, k-paths and the input cards made from them."""
import itertools, math, re
import numpy as np
from mc import *
import co
import matplotlib
matplotlib.use('Agg')
from pwtools import crys, kpath, pwscf, num

chk = Check('P27', level='exploration',
    rule='k-grids: all cells x spacings (incl. ones putting each direction just below and above every rounding border) x minimal point numbers x evenness x output forms, inverse for all sizes 1..6 per direction. k-paths: all vertex lists of length 1..4 over a small set of points (repeats and reversals included) x points per segment 1..6 x real/integer input; plots of them. Cards for all grids and shifts of a set. Non-trivial: grids which are not rounded down to the minimum; paths with at least one segment.',
    assumptions=['a quotient exactly halfway between two integers may be rounded either way'])

CELLS = dict(co.CELLS)
CELLS['unit'] = np.identity(3)
CELLS['big'] = 10 * co.CELLS['tri']
CELLS['flat'] = np.diag([1.0, 8.0, 30.0])

def recip(cell):
    a, b, c = [list(map(float, v)) for v in cell]
    x = lambda u, v: [u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]]
    vol = sum(p * q for p, q in zip(a, x(b, c)))
    return [[2 * math.pi * t / vol for t in x(*p)] for p in ((b, c), (c, a), (a, b))]

def norm(v):
    return math.sqrt(sum(float(t) ** 2 for t in v))

def rnd(q):
    """set of allowed roundings"""
    f = math.floor(q)
    return {f} if q - f < 0.5 - 1e-9 else {f + 1} if q - f > 0.5 + 1e-9 else {f, f + 1}

def sizes(norms, h, mn, even):
    out = []
    for n in norms:
        s = set()
        for r in rnd(n / h):
            r = max(r, mn)
            s.add(r + r % 2 if even else r)
        out.append(s)
    return out

def gen_grid(tier):
    for name in CELLS:
        for k in (True, False):
            hs = [0.1, 0.23, 0.5, 1.0, 3.3, 20.0]
            ns = [norm(v) for v in (recip(CELLS[name]) if k else CELLS[name])]
            for n in ns:
                for m in range(5 if tier == 'quick' else 12):
                    hs += [n / (m + 0.5) * 1.0001, n / (m + 0.5) * 0.9999, n / (m + 1)]
            for h in dict.fromkeys(hs):
                yield [name, k, h]

@chk.group(gen_grid)
def grid(case, ctx):
    name, k, h = case
    cell = np.array(CELLS[name], float)
    g = recip(cell) if k else cell
    norms = [norm(v) for v in g]
    fn = crys.kgrid if k else crys.grid_in_cell
    arg = cell.copy()
    nontriv = False
    for mn, even in itertools.product((0, 1, 2, 3), (False, True)):
        want = sizes(norms, h, mn, even)
        nontriv |= any(max(s) > mn + 1 for s in want)
        kw = dict(minpoints=mn, even=even)
        if any(max(s) == 0 for s in want):
            check(raises(lambda: fn(arg, h=h, **kw)), 'zero points accepted: h=%r %r' % (h, kw))
            continue
        if any(0 in s for s in want):
            continue
        got = fn(arg, h=h, **kw)
        check(np.shape(got) == (3,) and np.asarray(got).dtype.kind == 'i', 'type of the grid %r' % (got,))
        check(all(int(a) in s for a, s in zip(got, want)), 'h=%r %r: got %r, rule gives %r (norms %r)' % (h, kw, list(got), want, norms))
        got2, sp = fn(arg.tolist(), h=h, fullout=True, **kw)
        check(list(got2) == list(got), 'fullout changes the grid')
        ref = [a / int(b) for a, b in zip(norms, got)]
        assert_close(sp, ref, 'effective spacing', 1e-12, 0)
        assert_close(fn(arg, size=got), ref, 'spacing of the resulting size', 1e-12, 0)
        ctx.eval(3)
    if k:
        check(list(crys.kgrid(arg, dk=h)) == list(crys.kgrid(arg, h=h)), 'old name of h')
        check(any(len(rnd(n / h)) > 1 for n in norms) or list(crys.grid_in_cell(np.array(g), h=h)) == list(crys.kgrid(arg, h=h)), 'grid_in_cell of the reciprocal cell')
    check((arg == cell).all(), 'cell changed')
    if not nontriv:
        ctx.trivial()

def gen_inv(tier):
    n = 5 if tier == 'quick' else 9
    for name in CELLS:
        for k in (True, False):
            yield [name, k, n]

@chk.group(gen_inv)
def inverse(case, ctx):
    name, k, n = case
    cell = np.array(CELLS[name], float)
    norms = [norm(v) for v in (recip(cell) if k else cell)]
    fn = crys.kgrid if k else crys.grid_in_cell
    for sz in itertools.product(range(1, n + 1), repeat=3):
        for form in (list, tuple, np.array):
            sp = fn(cell, size=form(sz))
            assert_close(sp, [a / b for a, b in zip(norms, sz)], 'spacing for size %r' % (sz,), 1e-12, 0)
            ctx.eval(1)
        # spacing of one direction gives back its size
        for i in range(3):
            check(fn(cell, h=sp[i])[i] == sz[i], 'h=%r does not give back %r points in direction %i' % (sp[i], sz[i], i))

    check(raises(lambda: fn(cell, size=[1, 1, 1], h=0.5)), 'size and h accepted together')

# --- paths ------------------------------------------------------------------
PTS = [[0, 0, 0], [0.5, 0, 0], [0.25, 0.5, -0.125], [1, 1, 0], [-2, 0, 1]]

def gen_path(tier):
    npt = 4 if tier == 'quick' else 5
    for K in range(1, 5):
        for t in itertools.product(range(npt), repeat=K):
            if K == 4 and tier == 'quick' and (t[0] + 2 * t[1] + t[2] + t[3]) % 2:
                continue
            yield list(t)

@chk.group(gen_path)
def path(case, ctx):
    K = len(case)
    ctx.trivial() if K < 2 else None
    for dim, N, integer in itertools.product((3, 2, 1), (1, 2, 3, 6), (False, True)):
        v = np.array([PTS[i][:dim] for i in case], float)
        if integer:
            if (v != np.round(v)).any():
                continue
            v = v.astype(int)
        keep = v.copy()
        got = kpath.kpath(v, N=N)
        check(got.shape == (N * (K - 1) + 1, dim), 'shape %r' % (got.shape,))
        ref = []
        for a, b in zip(v[:-1], v[1:]):
            ref += [[float(a[d]) + (float(b[d]) - float(a[d])) * j / N for d in range(dim)] for j in range(N)]
        ref.append([float(t) for t in v[-1]])
        assert_close(got, ref, 'path through %r with N=%i' % (case, N), 0, 1e-12)
        check(all((got[i * N] == v[i]).all() for i in range(K)), 'vertices are not exactly on the path')
        check((v == keep).all() and got.dtype == float, 'input changed or not float')
        for ks in (got, v):
            pn = kpath.get_path_norm(ks)
            acc, r = 0.0, []
            for i in range(len(ks)):
                acc += norm(ks[i]) if i == 0 else norm(np.asarray(ks[i], float) - np.asarray(ks[i - 1], float))
                r.append(acc)
            assert_close(pn, r, 'path length', 1e-12, 1e-12)
            check((np.diff(pn) >= 0).all(), 'path length decreases')
        # length at the vertices of the fine path = length of the coarse path
        assert_close(kpath.get_path_norm(got)[::N], kpath.get_path_norm(v), 'position of the vertices', 1e-12, 1e-12)
        ctx.eval(3)
    if K >= 2:
        a, b = np.array(PTS[case[0]], float), np.array(PTS[case[1]], float)
        for n, ep in itertools.product((1, 2, 3, 5, 50), (True, False)):
            got = num.vlinspace(a, b, n, endpoint=ep)
            d = n if not ep else max(n - 1, 1)
            assert_close(got, [a + (b - a) * j / d for j in range(n)], 'vlinspace n=%i endpoint=%s' % (n, ep), 0, 1e-12)
            ctx.eval(1)
    check(kpath.kpath(np.array([PTS[i] for i in case], float)).shape[0] == 10 * (K - 1) + 1, 'default number of points')

def gen_spp(tier):
    for K in (1, 2, 3):
        for t in itertools.product(range(4), repeat=K):
            for form in range(4 if K < 3 else 2):
                yield [list(t), form]

@chk.group(gen_spp)
def plot(case, ctx):
    t, form = case
    v = np.array([PTS[i] for i in t], float)
    frac = v * 2
    sym = ['$\\Gamma$', 'K', 'M', 'X'][:4]
    sym = [sym[i] for i in t]
    fine = kpath.kpath(v, N=3)
    pn = kpath.get_path_norm(fine)
    freqs = co.gen_arr((len(pn), 4), 5, -20, 300)
    if form == 0:
        spp = kpath.SpecialPointsPath(ks=v, symbols=sym)
    else:
        spp = kpath.SpecialPointsPath(ks=v, ks_frac=frac, symbols=sym)
    check(spp.ks is v and spp.symbols is sym and (form == 0) == (spp.ks_frac is None), 'special points stored')
    assert_close(spp.path_norm, pn[::3], 'special points at the vertices', 1e-12, 1e-12)
    dos = co.gen_arr((7, 2), 6, 0, 1) if form == 3 else None
    show = [None, 'cart', 'frac', None][form]
    plt = matplotlib.pyplot if hasattr(matplotlib, 'pyplot') else __import__('matplotlib.pyplot').pyplot
    fig, ax, axd = kpath.plot_dis(pn, freqs, spp, show_coords=show, dos=dos)
    check(len(ax.lines) == 4 and all((ln.get_xdata() == pn).all() and (ln.get_ydata() == freqs[:, i]).all() for i, ln in enumerate(ax.lines)), 'plotted bands')
    assert_close(ax.get_xticks(), spp.path_norm, 'marked vertices', 1e-12, 1e-12)
    lab = [l.get_text() for l in ax.get_xticklabels()]
    want = [s if show is None else '%s\n[%s]' % (s, ','.join('%.2g' % x for x in (v if show == 'cart' else frac)[i])) for i, s in enumerate(sym)]
    check(lab == want, 'labels %r, expected %r' % (lab, want))
    check((axd is None) == (dos is None), 'dos axes')
    if pn[-1] > pn[0]:
        assert_close(ax.get_xlim(), (pn[0], pn[-1]), 'limits of the k axis', 1e-9, 1e-12)
    segs = [q for c in ax.collections for q in c.get_segments()]
    check(len(segs) == len(sym), 'lines at the special points')
    assert_close([q[0, 0] for q in segs], spp.path_norm, 'positions of the lines at special points', 1e-9, 1e-12)
    check('frequency' in ax.get_ylabel(), 'label of the frequency axis')
    # axes of the caller, line styles, height of the lines
    fig2, ax2 = matplotlib.pyplot.subplots()
    r = kpath.plot_dis(pn, freqs, spp, ax=ax2, ylim=(-50., 400.), color='g', lw=3)
    check(r[0] is fig2 and r[1] is ax2 and r[2] is None and len(ax2.lines) == 4, 'axes of the caller not used')
    check(all(l.get_color() == 'g' and l.get_linewidth() == 3 for l in ax2.lines), 'line style not used')
    check(all(sorted(q[:, 1]) == [-50., 400.] for c in ax2.collections for q in c.get_segments()), 'ylim not used')
    matplotlib.pyplot.close(fig2)
    # bands on a part of the path only
    h = len(pn) // 2 + 1
    if pn[h - 1] > pn[0] and h < len(pn):
        fig3, ax3, _ = kpath.plot_dis(pn[:h], freqs[:h], spp)
        assert_close(ax3.get_xlim(), (pn[0], pn[h - 1]), 'limits of the k axis for a part of the path', 1e-9, 1e-12)
        matplotlib.pyplot.close(fig3)
    if dos is not None:
        check((axd.lines[0].get_xdata() == dos[:, 1]).all() and (axd.lines[0].get_ydata() == dos[:, 0]).all(), 'plotted dos')
    matplotlib.pyplot.close(fig)
    fig, ax, axd = kpath.plot_dis(pn, freqs)
    check(axd is None and len(ax.lines) == 4, 'plot without special points')
    matplotlib.pyplot.close(fig)
    ctx.eval(3)

# --- cards --------------------------------------------------------------------
def gen_cards(tier):
    for g in itertools.product((1, 2, 11), repeat=3):
        yield list(g)

@chk.group(gen_cards)
def cards(g, ctx):
    for form in (list, tuple, np.array):
        for sh in ([0, 0, 0], [1, 0, 1], (0, 1, 0), None):
            kw = {} if sh is None else dict(shift=sh)
            s = list(sh or (0, 0, 0))
            ref = [str(x) for x in g + s]
            lst = form(g)
            check(pwscf.kpoints_str_pwin(lst, **kw).split() == ref, 'card %r of %r, shift %r' % (pwscf.kpoints_str_pwin(lst, **kw), lst, sh))
            for gamma in (True, False):
                got = pwscf.kpoints_str_pwin_full(lst, gamma=gamma, **kw)
                if g == [1, 1, 1] and gamma:
                    check(got == 'K_POINTS gamma', 'card %r' % got)
                else:
                    l = got.split('\n')
                    check(l[0].split() == ['K_POINTS', 'automatic'] and l[1].split() == ref and len(l) == 2, 'card %r of %r, shift %r' % (got, lst, sh))
            check(list(lst) == g, 'argument changed')
            ctx.eval(3)
        check(pwscf.kpoints_str(lst) == 'nk1=%i,nk2=%i,nk3=%i' % tuple(g), 'kpoints_str')
        check(pwscf.kpoints_str(lst, base='q') == 'q1=%i,q2=%i,q3=%i' % tuple(g), 'kpoints_str base')
    check(pwscf.kpoints_str_pwin_full('gamma') == 'K_POINTS gamma' and pwscf.kpoints_str_pwin([2, 2, 2]).split() == list('222000'), 'card after calls with other shifts')
    check(pwscf.kpointstr is pwscf.kpoints_str or pwscf.kpointstr(g) == pwscf.kpoints_str(g), 'old name')
