"""P18: radial pair distribution functions."""
import itertools, math
import numpy as np
from mc import *
import co
from pwtools import crys

chk = Check('P18', level='exploration',
    rule='All atom selections (None, every pair of non-empty boolean masks, every pair of symbol strings, single entries) x cells x structures/trajectories/two trajectories x rmax (auto, at the limit, smaller) x dr x pbc x time mask x distance mask x norm_vmd. Oracle: loop over all pairs and all periodic images. Non-trivial: at least one pair is counted.',
    assumptions=['rmax up to rmax_smith for pbc=True (documented validity)', 'pairs in the first bin [0,dr) are documented as not counted', 'non-empty selections, fixed cell', 'no distance on a bin edge'])

SY = {1: ['H'], 2: ['H', 'O'], 3: ['H', 'O', 'H'], 4: ['O', 'H', 'H', 'O']}
def masks(n):
    return [list(m) for m in itertools.product([True, False], repeat=n) if any(m)]

def gen(tier):
    cells = ['tri', 'rottri', 'fcc'] if tier == 'quick' else list(co.CELLS)
    for c in cells:
        for n in (1, 2, 3, 4):
            for kind in ('struct', 'traj', 'two'):
                for geo in ('gen', 'lattice'):
                    yield [c, n, kind, geo]

def pairdists(fa, fb, cell, pbc):
    out = np.empty((len(fa), len(fb)))
    img = list(itertools.product(range(-2, 3), repeat=3)) if pbc else [(0, 0, 0)]
    for i in range(len(fa)):
        for j in range(len(fb)):
            d = fa[i] - fb[j]
            if pbc:
                d = d - np.round(d)
            out[i, j] = min(math.sqrt((((d + m).dot(cell)) ** 2).sum()) for m in img)
    return out

def oracle(dl, n0, n1, volume, dr, nb, rmax, vmd, dpred):
    g = np.zeros(nb); s = np.zeros(nb)
    for d in dl:
        h = [0] * nb
        dup = 0
        for x in d.ravel():
            if x < 1e-15:
                dup += 1
            if x >= rmax or not dpred(x):
                continue
            k = int(x // dr)
            if k >= 1:
                h[k] += 1
        nn = n0 * n1 - (dup if vmd else 0)
        acc = 0
        for k in range(nb):
            shell = 4.0 / 3 * math.pi * (((k + 1) * dr) ** 3 - (k * dr) ** 3)
            g[k] += h[k] * volume / shell / nn if nn else 0
            acc += h[k]
            s[k] += acc / n0
    return g / len(dl), s / len(dl)

@chk.group(gen)
def rpdf(case, ctx):
    c, n, kind, geo = case
    cell = co.CELLS[c]
    sy = SY[n]
    if geo == 'gen':
        f = co.gen_frac(n, 5, -1.1, 2.3)
    else:
        f = np.array([[0, 0, 0], [.26, .27, 0], [.13, 0, .33], [0.01, .37, .31]])[:n] + 0.9
    nstep = 1 if kind == 'struct' else 3
    F = [np.array([f + 0.011 * i * co.gen_arr((n, 3), i + 3 * k) for i in range(nstep)]) for k in range(2)]
    mk = lambda x: crys.Trajectory(coords_frac=x, cell=cell, symbols=list(sy))
    if kind == 'struct':
        st = crys.Structure(coords_frac=F[0][0], cell=cell, symbols=list(sy))
        forms = [st, [st], [st, st]]; FF = [F[0], F[0]]
    elif kind == 'traj':
        t = mk(F[0]); forms = [t, [t], [t, t]]; FF = [F[0], F[0]]
    else:
        forms = [[mk(F[0]), mk(F[1])]]; FF = F
    rs = crys.rmax_smith(cell)
    V = co.volume(cell)
    MM = masks(n)
    am = [(None, MM[0], MM[0])] if False else []
    full = [True] * n
    am.append((None, full, full))
    for a in MM:
        am.append(([np.array(a)], a, a))
        for b in MM:
            am.append(([np.array(a), np.array(b)], a, b))
    for a in sorted(set(sy)):
        ma = [x == a for x in sy]
        am.append(([a], ma, ma))
        for b in sorted(set(sy)):
            am.append(([a, b], ma, [x == b for x in sy]))
        am.append(([a, np.array(full)], ma, full))
    counted = False
    cache = {p: [pairdists(FF[0][t], FF[1][t], cell, p) for t in range(nstep)] for p in (True, False)}
    tms = [(None, slice(None)), (slice(None), slice(None))] + ([(slice(1, None), slice(1, None)), (slice(None, None, 2), slice(None, None, 2)), (-1, slice(-1, None)), (slice(-2, None), slice(-2, None))] if nstep > 1 else [])
    dms = [(None, lambda x: True), ('>=1.0', lambda x: x >= 1.0), ('{d} <1.3', lambda x: x < 1.3), ('({d} > 0.8) & ({d} < 1.6)', lambda x: 0.8 < x < 1.6)]
    def run(form, amask, ma, mb, tm, dr, rmax, pbc, dm, vmd):
        kw = dict(dr=dr, pbc=pbc)
        if rmax is not None:
            kw['rmax'] = rmax
        if amask is not None:
            kw['amask'] = amask
        if tm[0] is not None:
            kw['tmask'] = tm[0]
        if dm[0] is not None:
            kw['dmask'] = dm[0]
        if vmd:
            kw['norm_vmd'] = True
        what = '%s %s' % (case, short(repr(kw), 300))
        fr = freeze([form, kw])
        got = crys.rpdf(form, **kw)
        check(freeze([form, kw]) == fr, what + ': arguments changed')
        R = rs if rmax in (None, 'auto') else rmax
        nb = len(np.arange(0, R + dr, dr)) - 1
        dl = [d[np.ix_(ma, mb)] for d in cache[pbc][tm[1]]]
        g, s = oracle(dl, sum(ma), sum(mb), V, dr, nb, R, vmd, dm[1])
        check(got.shape == (nb, 3), lambda: what + ': shape %s' % (got.shape,))
        assert_close(got[:, 0], [(k + 0.5) * dr for k in range(nb)], what + ': radii')
        assert_close(got[:, 2], s, what + ': number integral', 1e-9)
        if not (vmd and sum(ma) * sum(mb) - (np.array(dl[0]) < 1e-15).sum() == 0):
            assert_close(got[:, 1], g, what + ': g(r)', 1e-9)
        ctx.eval()
        return bool(s.any())
    T0, D0 = tms[0], dms[0]
    for amask, ma, mb in am:
        for form in forms:
            counted |= run(form, amask, ma, mb, T0, 0.23, None, True, D0, False)
        run(forms[0], amask, ma, mb, tms[-1], 0.31, rs, True, dms[-1], False)
        run(forms[0], amask, ma, mb, tms[-1], 0.31, 'auto', False, D0, False)
    sub = [am[0], am[-1], am[-2], am[len(am) // 2]]
    for amask, ma, mb in sub:
        for tm in tms:
            for dm in dms:
                for pbc in (True, False):
                    for dr, rmax in ((0.19, None), (0.25, 1.0), (0.4, rs * 0.93)) + (((0.7, 5.1),) if not pbc else ()):
                        run(forms[-1], amask, ma, mb, tm, dr, rmax, pbc, dm, False)
    a, ma, mb = am[0]
    for tm in tms:
        run(forms[0], a, ma, mb, tm, 0.2, None, True, D0, True)
    # average over the steps = average of the single steps
    if kind == 'traj':
        t = forms[0]
        single = np.mean([crys.rpdf(t[i], dr=0.21) for i in range(nstep)], axis=0)
        assert_close(crys.rpdf(t, dr=0.21), single, 'average over steps', 1e-9)
    # default arguments
    assert_close(crys.rpdf(forms[0]), crys.rpdf(forms[0], dr=0.05, rmax='auto', amask=None, tmask=None, dmask=None, pbc=True, norm_vmd=False), 'defaults', 0, 0)
    check(raises(lambda: crys.rpdf(forms[0], maxmem=1e-12)) is not None, 'maxmem ignored')
    # order of atoms does not matter
    if n > 1 and kind != 'two':
        p = list(range(n))[::-1]
        o = forms[0]
        q = crys.Structure(coords_frac=F[0][0][p], cell=cell, symbols=[sy[i] for i in p]) if kind == 'struct' else \
            crys.Trajectory(coords_frac=F[0][:, p], cell=cell, symbols=[sy[i] for i in p])
        for am_ in (None, [sy[0]], [sy[0], sy[1]]):
            assert_close(crys.rpdf(q, dr=0.17, amask=am_), crys.rpdf(o, dr=0.17, amask=am_), 'order of atoms', 1e-9)
    if not counted:
        ctx.trivial()

@chk.group(lambda tier: [[c] for c in co.CELLS])
def inconsistent_input(case, ctx):
    cell = co.CELLS[case[0]]
    a = crys.Structure(coords_frac=co.gen_frac(2), cell=cell, symbols=['H', 'O'])
    b = crys.Structure(coords_frac=co.gen_frac(2), cell=cell, symbols=['O', 'H'])
    d = crys.Structure(coords_frac=co.gen_frac(2), cell=cell * 1.1, symbols=['H', 'O'])
    t = crys.Trajectory(coords_frac=np.array([co.gen_frac(2)] * 2), cell=cell, symbols=['H', 'O'])
    tc = lambda s: crys.Trajectory(coords_frac=np.array([co.gen_frac(2)] * 3), cell=np.array([cell, cell * 1.1, cell * s]), symbols=['H', 'O'])
    check(raises(lambda: crys.rpdf([tc(1.2), tc(1.2)], dr=0.2)) is None, 'same cells refused')
    for lst in ([a, b], [a, d], [a, t], [a, a, a], [tc(1.2), tc(1.3)]):
        check(raises(lambda: crys.rpdf(lst, dr=0.2)) is not None, 'inconsistent input accepted')
    check(raises(lambda: crys.rpdf(a, amask=['H', 'H', 'O'])) is not None, 'three masks accepted')
