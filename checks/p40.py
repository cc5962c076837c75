"""P40: plot helpers."""
import os, itertools, importlib, warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import numpy as np
from mc import *
import co
from pwtools import mpl

chk = Check('P40', level='exploration',
    rule='All shapes of the line data of a 3d plot; all sequences of labelled and unlabelled artists on up to three axes x all orders and repetitions of the axes in the legend x the axis which gets it; all axis, spine and label settings of the colour and new-axis helpers in sequences of two; the artists and settings of the figure are read back and compared with what was asked for. Non-trivial: something is drawn.',
    assumptions=['matplotlib as installed, Agg backend'])

def close_all(fn):
    def f(case, ctx):
        plt.close('all')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fn(case, ctx)
        finally:
            plt.close('all')
    f.__name__ = fn.__name__
    return f

@chk.group(lambda tier: [[xd, zd, nx, ny, k] for xd in (1, 2) for zd in (1, 2) for nx in (1, 2, 3, 4) for ny in (1, 2, 3, 4) for k in (0, 1)])
@close_all
def lines3d(case, ctx):
    xd, zd, nx, ny, k = case
    x = co.gen_arr((nx,) if xd == 1 else (nx, ny), 1 + k)
    y = co.gen_arr((ny,), 2 + k)
    z = co.gen_arr((nx,) if zd == 1 else (nx, ny), 3 + k)
    b = freeze([x, y, z])
    n = len(plt.get_fignums())
    fig, ax = mpl.fig_ax3d(clean=bool(k), figsize=(3 + k, 2))
    check(len(plt.get_fignums()) == n + 1 and list(fig.get_size_inches()) == [3 + k, 2] and ax.name == '3d' and fig.axes == [ax], 'figure')
    panes = [a.pane.get_facecolor() for a in (ax.xaxis, ax.yaxis, ax.zaxis)]
    default = plt.figure().add_subplot(111, projection='3d')
    std = [a.pane.get_facecolor() for a in (default.xaxis, default.yaxis, default.zaxis)]
    check([tuple(p[:3]) == (1, 1, 1) if k else tuple(p) == tuple(q) for p, q in zip(panes, std)] == [True] * 3, lambda: 'panes %r, clean=%r' % (panes, k))
    check(bool(ax._draw_grid) == (not k), 'grid')
    kw = dict(color='r', lw=3.5) if k else {}
    r = mpl.plotlines3d(ax, x, y, z, *(['--'] if k else []), **kw)
    check(r is ax, 'axis')
    check(len(ax.lines) == ny, lambda: '%i lines for %i' % (len(ax.lines), ny))
    for j, l in enumerate(ax.lines):
        got = [np.asarray(a, float) for a in l.get_data_3d()]
        want = [x if xd == 1 else x[:, j], np.ones(nx) * y[j], z if zd == 1 else z[:, j]]
        for g, w, m in zip(got, want, 'xyz'):
            assert_close(g, w, '%s of line %i' % (m, j), 0, 0)
        if k:
            check(l.get_linestyle() == '--' and l.get_color() == 'r' and l.get_linewidth() == 3.5, 'style')
    check(freeze([x, y, z]) == b, 'input changed')
    for ny2 in (ny - 1, ny + 1):
        if ny2 > 0 and (xd == 2 or zd == 2):
            check(raises(lambda: mpl.plotlines3d(ax, x, co.gen_arr((ny2,), 1), z)) is not None, 'wrong number of y values accepted')

# --- figures --------------------------------------------------------------------------------
@chk.group(lambda tier: [[list(n), p, k] for m in (0, 1, 2, 3) for n in itertools.permutations(['a', 'b', 3], m) for p in ('2d', '3d') for k in (0, 1)])
@close_all
def figures(case, ctx):
    names, proj, k = case
    kw = dict(figsize=(2, 3)) if k else {}
    names = [tuple(n) if isinstance(n, list) else n for n in names]
    if not names:
        ctx.trivial()
    pl = mpl.prepare_plots(names, projection=proj, **kw)
    check(list(pl.keys()) == names and len(plt.get_fignums()) == len(names), lambda: 'plots %s' % list(pl))
    check(len(set(id(p.fig) for p in pl.values())) == len(names), 'figures shared')
    for p in pl.values():
        check(p.fig.axes == [p.ax] and (p.ax.name == '3d') == (proj == '3d'), 'axis')
        if k:
            check(list(p.fig.get_size_inches()) == [2, 3], 'size')
    if not names:
        for q in ('4d', '', None):
            check(raises(lambda: mpl.prepare_plots(['a'], projection=q)) is not None and raises(lambda: mpl.Plot(projection=q)) is not None, 'projection %r accepted' % q)
        f, a = mpl.fig_ax(**kw)
        p = mpl.Plot(f, a, projection=proj)
        check(p.fig is f and p.ax is a and len(plt.get_fignums()) == 1, 'given figure not used')
        check(raises(lambda: mpl.Plot(fig=f)) is not None and raises(lambda: mpl.Plot(ax=a)) is not None, 'figure without axis accepted')
        p = mpl.Plot(projection=proj, **kw)
        check((p.ax.name == '3d') == (proj == '3d') and (not k or list(p.fig.get_size_inches()) == [2, 3]), 'projection')

@chk.group(lambda tier: [[e, k] for e in ([], ['png'], ['pdf'], ['png', 'pdf'], ['svg', 'png', 'eps'], None) for k in (0, 1)])
@close_all
def savefig(case, ctx):
    ext, k = case
    d = ctx.tmp()
    p = mpl.Plot()
    p.ax.plot([1, 2, 3])
    base = os.path.join(d, 'a.b' if k else 'fig')
    if ext is None:
        p.savefig(base); ext, k = ['png'], 0
    else:
        p.savefig(base, ext=ext, **({'dpi': 50} if k else {}))
    check(sorted(os.listdir(d)) == sorted(os.path.basename(base) + '.' + e for e in ext), lambda: 'files %s' % os.listdir(d))
    magic = dict(png=b'\x89PNG', pdf=b'%PDF', svg=b'<?xml', eps=b'%!PS')
    for e in ext:
        b = open(base + '.' + e, 'rb').read()
        check(b.startswith(magic[e]), 'type of ' + e)
        if e == 'png':
            w = int.from_bytes(b[16:20], 'big')
            check(w == round(p.fig.get_size_inches()[0] * (50 if k else plt.rcParams['savefig.dpi'] if plt.rcParams['savefig.dpi'] != 'figure' else p.fig.dpi)), 'resolution')

# --- legends --------------------------------------------------------------------------------
ART = ['', 'l', 'b', 'u', 'll', 'lb', 'ul', 'lul']
def gen_leg(tier):
    arts = ART if tier != 'quick' else ART[:7]
    for a in itertools.product(arts, ('', 'l', 'lb', 'ub'), ('', 'l')):
        yield list(a)

@chk.group(gen_leg)
@close_all
def legends(case, ctx):
    p = mpl.Plot()
    p.ax2 = p.ax.twinx()
    p.ax3 = p.ax.twiny()
    names = ['ax', 'ax2', 'ax3']
    want, n = {}, 0
    if not any(case):
        ctx.trivial()
    for nm, arts in zip(names, case):
        a = getattr(p, nm)
        lines, bars = [], []
        for t in arts:
            col = (n / 20., 0.5, 1 - n / 20., 1.0)
            lab = 'lab %i' % n
            n += 1
            if t == 'l': lines.append((lab, a.plot([1, 2], [n, 2], color=col, label=lab)[0]))
            if t == 'u': a.plot([1, 2], [2, n], color=col)
            if t == 'b': bars.append((lab, a.bar([1, 2], [1, n], color=col, label=lab)))
        want[nm] = lines + bars       # order within an axis as matplotlib has it
        hl = a.get_legend_handles_labels()
        check(sorted(hl[1]) == sorted(l for l, _ in want[nm]), 'harness')
        want[nm] = list(zip(hl[1], hl[0]))
    for m in (1, 2, 3):
        for sel in itertools.product(names, repeat=m):
            w = [x for nm in sel for x in want[nm]]
            r = p.collect_legends(list(sel))
            r2 = mpl.collect_legends(*[getattr(p, nm) for nm in sel])
            for q in (r, r2, r):        # may be used more than once
                check(len(q) == 2, 'handles and labels')
                check(list(q[1]) == [l for l, _ in w], lambda: 'labels %s, expected %s' % (list(q[1]), [l for l, _ in w]))
                check(len(list(q[0])) == len(w) and all(a is b for a, (_, b) in zip(q[0], w)), 'handles')
            ctx.eval(1)
            if len(set(sel)) < m:
                continue
            for la in names:
                for nm in names:
                    if getattr(p, nm).get_legend(): getattr(p, nm).get_legend().remove()
                args = (list(sel),) if la == 'ax' else (list(sel), la)
                leg = p.legend(*args, loc='lower left', title='T')
                check([nm for nm in names if getattr(p, nm).get_legend() is not None] == [la] and getattr(p, la).get_legend() is leg, 'axis with the legend')
                check([t.get_text() for t in leg.get_texts()] == [l for l, _ in w] and leg.get_title().get_text() == 'T', 'legend texts')
    dflt = p.collect_legends()
    check(list(dflt[1]) == [l for l, _ in want['ax']], 'default axis')
    for la in names:
        for nm in names:
            if getattr(p, nm).get_legend(): getattr(p, nm).get_legend().remove()
        leg = p.legend(legaxname=la, ncols=2)
        check([t.get_text() for t in leg.get_texts()] == [l for l, _ in want[la]] and getattr(p, la).get_legend() is leg, 'legend of one axis')

# --- colours of an axis ---------------------------------------------------------------------
SP = ['left', 'right', 'top', 'bottom']
def axstate(ax):
    st = {}
    for a in 'xy':
        A = getattr(ax, a + 'axis')
        st['label ' + a] = to_rgba(A.label.get_color())
        for w in ('major', 'minor'):
            t = A.get_tick_params(which=w)
            st['ticks %s %s' % (a, w)] = tuple(to_rgba(t[k]) if k in t else None for k in ('color', 'labelcolor'))
    for s in SP:
        st['spine ' + s] = to_rgba(ax.spines[s].get_edgecolor())
    return st
@chk.group(lambda tier: [[c, a, s, i, tw] for c in ('r', 'tab:green') for a in ('x', 'y', 'both', None) for s in SP + [None, 'default'] for i in SP + [None] for tw in (0, 1)])
@close_all
def colors(case, ctx):
    c, a, s, inv, tw = case
    fig, ax = mpl.fig_ax()
    ax.plot([1, 2])
    other = ax.twinx()
    if tw: ax, other = other, ax
    before, ob = axstate(ax), axstate(other)
    kw = {}
    if a is not None: kw['axis'] = a
    if s != 'default': kw['spine_loc'] = s
    if inv: kw['spine_invisible'] = inv
    mpl.color_ax(ax, c, **kw)
    want = dict(before)
    col = to_rgba(c)
    for x in {'x': 'x', 'y': 'y', 'both': 'xy', None: 'y'}[a]:
        want['label ' + x] = col
        for w in ('major', 'minor'):
            want['ticks %s %s' % (x, w)] = (col, col)
    if s is not None: want['spine ' + ('left' if s == 'default' else s)] = col
    if inv: want['spine ' + inv] = to_rgba('None')
    after = axstate(ax)
    bad = [k for k in want if want[k] != after[k]]
    check(not bad, lambda: 'wrong: %s' % [(k, after[k], want[k]) for k in bad])
    # twinx shares the x axis ticks with the other one
    check({k: v for k, v in axstate(other).items() if ' x' not in k} == {k: v for k, v in ob.items() if ' x' not in k}, 'other axis changed')

# --- additional axis lines ------------------------------------------------------------------
def gen_new(tier):
    one = [(loc, off, tk, lab, sh, ws) for loc in SP for off in (0, 40) for tk in (None, [1, 2, 4]) for lab in ('', 'lab') for sh in (0, 1, 2, 3) for ws in (0.05, None)]
    for o in one:
        yield [list(o)]
    two = [('left', 40, [1, 3], 'a', 0, 0.05), ('right', 40, None, 'b', 1, None), ('bottom', 30, [0, 2], 'c', 2, 0.1), ('top', 0, None, 'd', 3, 0.02), ('left', 80, None, 'e', 1, 0.05), ('bottom', 60, None, 'f', 0, None)]
    for n in ((2,) if tier == 'quick' else (2, 3)):
        for s in itertools.product(two, repeat=n):
            yield [list(x) for x in s]

@chk.group(gen_new)
@close_all
def new_axis(case, ctx):
    fig, host = mpl.make_axes_grid_fig(5) if len(case) > 1 else mpl.make_axes_grid_fig()
    check(len(plt.get_fignums()) == 1 and fig.axes == [host], 'figure')
    check(len(case) == 1 or fig.number == 5, 'number of the figure')
    host.plot([0, 1], [10, 20])
    para = []
    for loc, off, tk, lab, sh, ws in case:
        box0 = host.get_position()
        kw = dict(off=off, loc=loc, ticks=tk, label=lab, sharex=bool(sh & 1), sharey=bool(sh & 2))
        if ws is not None: kw['wsadd'] = ws
        f, h, p = mpl.new_axis(fig, host, **kw)
        check(f is fig and h is host and p not in [q for q, _ in para], 'returned')
        para.append((p, (loc, off, tk, lab, sh)))
        ws = 0.1 if ws is None else ws
        b = dict(left=box0.x0, right=box0.x1, bottom=box0.y0, top=box0.y1)
        b[loc] += ws if loc in ('left', 'bottom') else -ws
        box = host.get_position()
        assert_close([box.x0, box.x1, box.y0, box.y1], [b[k] for k in ('left', 'right', 'bottom', 'top')], 'position', 0, 2e-6)
        check(list(host.parasites) == [q for q, _ in para], 'parasites')
    fig.canvas.draw()
    for k, (p, (loc, off, tk, lab, sh)) in enumerate(para):
        p.plot([100 + k, 200 + k], [1000 + k, 2000 + k])
        check(p.axis[loc + '2'].get_visible(), 'axis line invisible')
        check(not any(p.axis[s].get_visible() for s in SP), 'host axis line visible')
        hor = loc in ('top', 'bottom')
        check((p.get_xlabel(), p.get_ylabel()) == ((lab, '') if hor else ('', lab)), 'label')
        if tk is not None:
            check([float(x) for x in (p.get_xticks() if hor else p.get_yticks())] == tk, 'ticks')
        check((p.get_shared_x_axes().joined(p, host), p.get_shared_y_axes().joined(p, host)) == (bool(sh & 1), bool(sh & 2)), 'shared axes')
        l = p.lines[0]
        check(len(p.lines) == 1 and list(l.get_xdata()) == [100 + k, 200 + k], 'data')
    check(len(host.lines) == 1, 'lines of the host')
    fig.canvas.draw()

# --- colours and styles ---------------------------------------------------------------------
@chk.group(lambda tier: [[n] for n in range(1, 12)])
def smooth(case, ctx):
    n, = case
    want = [i / (n - 1.) if n > 1 else 0.0 for i in range(n)]
    assert_close([mpl.smooth_color(i, n) for i in range(n)], want, 'smooth_color', 1e-14, 1e-14)
    got = mpl.smooth_color_func(n, lambda z: (z, 0, 1 - z))
    assert_close(got, [(z, 0, 1 - z) for z in want], 'smooth_color_func', 1e-14, 1e-14)
    check(len(mpl.smooth_color_func(n, str)) == n, 'number of colours')

LST = dict(colors=('colors',), markers=('markers',), linestyles=('linestyles',), colors_markers=('colors', 'markers'), colors_linestyles=('colors', 'linestyles'),
           markers_colors=('markers', 'colors'), linestyles_colors=('linestyles', 'colors'))
SHORT = dict(cc='colors', cm='markers', ccm='colors_markers', ccl='colors_linestyles', cmc='markers_colors', clc='linestyles_colors')
@chk.group(lambda tier: [[k] for k in LST])
@close_all
def styles(case, ctx):
    k, = case
    m = importlib.reload(mpl)
    lst = getattr(m, k)
    check(lst == [''.join(x) for x in itertools.product(*[getattr(m, b) for b in LST[k]])] and len(set(lst)) == len(lst) > 3, 'list')
    fig, ax = m.fig_ax()
    for s in lst:
        l, = ax.plot([1, 2], [1, 2], s)
        for b in LST[k]:
            v = {'colors': l.get_color, 'markers': l.get_marker, 'linestyles': l.get_linestyle}[b]()
            if b == 'colors':
                v = [c for c in m.colors if to_rgba(c) == to_rgba(v)][0]
            check(v in getattr(m, b) and v in s, lambda: 'style %r drawn as %r' % (s, v))
    it = getattr(m, 'iter_' + k)
    check(list(it) == lst and list(it) == [], 'iter')
    cy = getattr(m, 'cycle_' + k, None)
    if cy is not None:
        check([next(cy) for _ in range(2 * len(lst) + 3)] == lst + lst + lst[:3], 'cycle')
    for a, b in SHORT.items():
        check(getattr(m, a) is getattr(m, 'cycle_' + b) and getattr(m, 'i' + a[1:]) is getattr(m, 'iter_' + b), 'shortcut ' + a)

@chk.group(lambda tier: [[n] for n in (None, 2, 3, 7)])
def testdata(case, ctx):
    n, = case
    d = mpl.get_2d_testdata() if n is None else mpl.get_2d_testdata(n)
    n = n or 20
    x = np.linspace(-5, 5, n)
    assert_close(d.x, x, 'x', 1e-13, 1e-13); assert_close(d.y, x, 'y', 1e-13, 1e-13)
    assert_close(d.Z, np.sin(x)[:, None] + np.cos(x)[None, :], 'Z', 1e-12, 1e-12)
