"""P32: random structures under every outcome of a scripted random number generator."""
import itertools, math
import numpy as np
from mc import *
import co
import pwtools.random as R
from pwtools import atomic_data

chk = Check('P32', level='exploration',
    rule='all outcomes of the random generator over an alphabet of 4-6 draws (mean, extreme and skewed cells; near, far and wrapped-around positions) up to a number of free draws, then a fixed cycle of good draws; x attempt limits 1..3 x 1..3 atoms x compositions x distance and volume scales. Non-trivial: runs in which at least one draw had to be rejected.',
    assumptions=['the generator is numpy.random (functions rand, uniform, random, random_sample); covalent radii are those of the table of the library'])

LEN = [(.5, .5, .5), (0, .5, 1), (1, 1, 1), (0, 0, 0), (0, 0, 1)]
ANG = [(.5, .5, .5), (0, 0, 0), (.5, .5, 1), (1, 1, 1), (1, 0, 0)]
POS = [(0, 0, 0), (.5, .5, .5), (.49, .49, 0), (.97, .02, .03), (.5, 0, .03), (.05, .96, .9)]
CYC = [(0, 0, 0), (.5, .5, .5), (.5, .5, .02), (.02, .5, .5), (.5, .01, .5)]

class Script:
    """stand-in for the generator; choose() decides the first `free` draws"""
    def __init__(self, choose, free, cells=(LEN, ANG)):
        self.choose, self.free, self.n, self.log, self.cells = choose, free, 0, [], cells
    def pick(self, alphabet, default):
        self.n += 1
        if self.n > 3000:
            raise RuntimeError('generator called without end')
        if self.n <= self.free:
            return alphabet[self.choose(len(alphabet))]
        return default
    def fill(self, size, getter):
        n = 1 if size is None else int(np.prod(size))
        v = []
        while len(v) < n:
            v.extend(getter())
        return v[0] if size is None else np.array(v[:n], float).reshape(size)
    def uniform(self, low=0.0, high=1.0, size=None):
        if (low, high) == (0.0, 1.0):
            return self.rand(*(() if size is None else np.atleast_1d(size)))
        k = sum(1 for l in self.log if l[0] == 'u') % 2
        t = self.fill(size, lambda: self.pick(self.cells[k], (.5, .5, .5)))
        self.log.append(('u', low + (high - low) * t))
        return self.log[-1][1]
    def rand(self, *shape):
        k = sum(1 for l in self.log if l[0] == 'r')
        v = self.fill(shape or None, lambda: self.pick(POS, CYC[k % len(CYC)]))
        self.log.append(('r', v))
        return v
    def random(self, size=None):
        return self.rand(*(() if size is None else np.atleast_1d(size)))

def scripted(script, fn):
    names = {'rand': script.rand, 'uniform': script.uniform, 'random': script.random, 'random_sample': script.random, 'ranf': script.random, 'sample': script.random}
    old = {k: getattr(np.random, k) for k in names if hasattr(np.random, k)}
    mod = {k: v for k, v in vars(R).items() if any(v is o or v == o for o in old.values() if callable(v))}
    try:
        for k in old:
            setattr(np.random, k, names[k])
        for k, v in mod.items():
            n = [x for x, o in old.items() if v == o][0]
            setattr(R, k, names[n])
        return fn()
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)
        for k, v in mod.items():
            setattr(R, k, v)

def cc_ok(cc, cfg):
    a, b, c = cc[:3]
    lo, hi = cfg['lr']
    if not all(lo - 1e-9 <= x <= hi + 1e-9 for x in cc[:3]) or not all(cfg['ar'][0] - 1e-9 <= x <= cfg['ar'][1] + 1e-9 for x in cc[3:]):
        return False
    ca, cb, cg = [math.cos(math.radians(x)) for x in cc[3:]]
    d = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    return d > 0 and cfg['vr'][0] * (1 - 1e-9) <= a * b * c * math.sqrt(d) <= cfg['vr'][1] * (1 + 1e-9)

IMG = np.array(list(itertools.product(range(-3, 4), repeat=3)), float)

def mindist(p, q, cell):
    d = np.asarray(q, float) - p
    d = d - np.round(d)
    return np.sqrt((((d + IMG) @ cell) ** 2).sum(axis=1)).min()

def config(sym, vs, ar, vr, lr, cs):
    r = [atomic_data.pt[s]['cov_rad'] for s in sym]
    vm = vs * sum(4 / 3. * math.pi * x ** 3 for x in r)
    lm = vm ** (1 / 3.)
    return dict(r=r, cs=cs, ar=ar, vr=[vm * vr[0], vm * vr[1]], lr=[lm * lr[0], lm * lr[1]])

RANGES = {'def': {}, 'narrow': dict(angle_range=[85.0, 95.0], vol_range_scale=[0.95, 1.1], length_range_scale=[0.9, 1.1]),
          'wide': dict(angle_range=[50.0, 130.0], vol_range_scale=[0.3, 2.0], length_range_scale=[0.6, 1.5]),
          'never': dict(vol_range_scale=[5.0, 6.0])}

def setup(sym, rng, kw, cs=1, vs=4):
    d = dict(RANGES[rng])
    cfg = config(sym, vs, d.get('angle_range', [60.0, 120.0]), d.get('vol_range_scale', [.7, 1.3]), d.get('length_range_scale', [.7, 1.3]), cs)
    d.update(kw)
    if cs != 1:
        d['close_scale'] = cs
    if vs != 4:
        d['vol_scale'] = vs
    return d, cfg

# --- cell constants ------------------------------------------------------------
def gen_cell(tier):
    for sym in (['Si'], ['H', 'O'], ['Si', 'Si', 'C']):
        for rng in RANGES:
            for mt in (1, 2, 3):
                yield [sym, rng, mt, 4 if tier == 'quick' else 6]

@chk.group(gen_cell)
def cell(case, ctx):
    sym, rng, mt, free = case
    kw, cfg = setup(sym, rng, dict(cell_maxtry=mt))
    rej = [0]
    def run(choose):
        sc = Script(choose, free)
        rs = R.RandomStructure(sym, **kw)
        try:
            cc = scripted(sc, rs.get_random_cryst_const)
        except R.RandomStructureFail as e:
            cc = None
            check(str(e), 'empty error message')
        us = [x for k, x in sc.log if k == 'u']
        drawn = [np.concatenate((us[i], us[i + 1])) for i in range(0, len(us) - 1, 2)]
        check(len(drawn) >= 1, 'nothing drawn')
        if cc is None:
            rej[0] += 1
            check(len(drawn) >= mt, 'gave up after %i of %i attempts' % (len(drawn), mt))
            check(not cc_ok(drawn[0], cfg), 'gave up although the first draw %r was fine' % drawn[0])
        else:
            check(np.shape(cc) == (6,) and cc_ok(cc, cfg), 'cell constants %r outside of the allowed ranges %r' % (cc, cfg))
            rej[0] += len(drawn) > 1
            check(rs.counters['cryst_const'] <= mt, 'attempt counter')
        check(len(drawn) <= 2 * mt + 1, 'more draws than attempts')
        ctx.eval(1)
    Choices.explore(run)
    if not rej[0]:
        ctx.trivial()
    if rng == 'never':
        rs = R.RandomStructure(sym, **kw)
        check(raises(rs.get_random_struct, R.RandomStructureFail) and raises(lambda: R.random_struct(sym, **kw), R.RandomStructureFail), 'impossible ranges')

# --- structures --------------------------------------------------------------------
def verify(st, sym, cfg):
    check(list(st.symbols) == list(sym) and st.natoms == len(sym), 'symbols %r instead of %r' % (st.symbols, sym))
    cellm = np.array(st.cell)
    check(cc_ok(co.cell2cc(cellm), cfg), 'cell %r outside of the allowed ranges %r' % (co.cell2cc(cellm), cfg))
    fr = np.array(st.coords_frac)
    check(fr.shape == (len(sym), 3) and (fr >= 0).all() and (fr < 1).all(), 'coords %r' % fr)
    for i in range(len(sym)):
        for j in range(i):
            lim = cfg['cs'] * (cfg['r'][i] + cfg['r'][j])
            d = mindist(fr[i], fr[j], cellm)
            check(d >= lim * (1 - 1e-9), 'atoms %i and %i at %.4f, allowed %.4f' % (j, i, d, lim))

def gen_struct(tier):
    for sym in (['Si', 'Si'], ['H', 'O'], ['O', 'H', 'H'], ['C', 'Si', 'H'], ['Si']):
        for rng in ('def', 'wide', 'narrow'):
            for cs, vs in ((1, 4), (0.6, 4), (1, 8), (1.3, 4)):
                for mt in (1, 2, 3):
                    for ci in range(len(LEN)):
                        for free in ((3,) if tier == 'quick' else (3, 5)):
                            if free == 5 and (ci or len(sym) < 3 or mt > 2 or rng == 'narrow' or (cs, vs) not in ((1, 4), (0.6, 4))):
                                continue
                            if tier == 'quick' and (ci and mt == 3 or ci > 1 and (cs, vs) != (1, 4)):
                                continue
                            yield [sym, rng, cs, vs, mt, ci, free]

@chk.group(gen_struct)
def struct(case, ctx):
    sym, rng, cs, vs, mt, ci, free = case
    kw, cfg = setup(sym, rng, dict(cell_maxtry=3, atom_maxtry=mt), cs, vs)
    n = [0, 0]
    for ang in range(len(ANG)):
        if ang and rng == 'narrow' and ci:
            continue
        def run(choose):
            # the first cell draw is given by ci, ang, positions are free
            it = iter([LEN[ci], ANG[ang]])
            sc = Script(choose, free + 2)
            orig = sc.pick
            def pick(alphabet, default):
                if alphabet is POS:
                    return orig(alphabet, default)
                sc.n += 1
                return next(it, (.5, .5, .5))
            sc.pick = pick
            rs = R.RandomStructure(sym, **kw)
            try:
                st = scripted(sc, rs.get_random_struct)
            except R.RandomStructureFail as e:
                st = None
            pos = [x for k, x in sc.log if k == 'r']
            if st is None:
                n[0] += 1
                check(len(pos) > mt, 'gave up after %i attempts' % len(pos))
                cm = np.array(rs.cell)
                fine = all(mindist(pos[i], pos[j], cm) > cfg['cs'] * (cfg['r'][i] + cfg['r'][j]) * (1 + 1e-9) for i in range(len(sym)) for j in range(i))
                check(not fine, 'gave up although the first positions were fine')
            else:
                n[1] += 1
                verify(st, sym, cfg)
                keep = freeze([st.coords_frac, st.cell, st.coords])
                try:
                    scripted(Script(lambda k: k - 1, 4), rs.get_random_struct)
                except R.RandomStructureFail:
                    pass
                check(freeze([st.coords_frac, st.cell, st.coords]) == keep, 'structure changed by the next one')
            ctx.eval(1)
        Choices.explore(run)
    if not (n[0] and n[1]):
        ctx.trivial()

def gen_nofail(tier):
    for sym in (['Si', 'Si'], ['O', 'H', 'H']):
        for mt in (1, 2):
            for ct in (1, 2):
                for vb in (False, True):
                    yield [sym, mt, ct, vb, 4 if tier == 'quick' else 6]

@chk.group(gen_nofail)
def nofail(case, ctx):
    sym, mt, ct, vb, free = case
    kw, cfg = setup(sym, 'def', dict(cell_maxtry=ct, atom_maxtry=mt, verbose=vb), 0.7)
    import contextlib, io
    def run(choose):
        sc = Script(choose, free, cells=(LEN[:4], ANG[:3]))
        rs = R.RandomStructure(sym, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            st = scripted(sc, lambda: rs.get_random_struct(fail=False))
        check(st is not None, 'no structure')
        verify(st, sym, cfg)
        ctx.eval(1)
    Choices.explore(run)
    # all kinds of random numbers of the real generator, fixed seeds
    np.random.seed(7)
    for i in range(20):
        verify(R.RandomStructure(sym, close_scale=0.7).get_random_struct(fail=False), sym, cfg)
        try:
            verify(R.random_struct(sym, close_scale=0.7), sym, cfg)
        except R.RandomStructureFail:
            pass

# --- skewed and flat cells: images beyond the nearest ones -----------------------
BIG = np.array(list(itertools.product(range(-9, 10), repeat=3)), float)
SKEW = [(0.0, 0.0, 0.0), (1.0, 1.0, 0.0), (0.9, 0.9, 0.1), (0.5, 0.1, 0.5), (0.5, 0.5, 0.05), (0.1, 0.5, 0.5), (0.9, 0.4, 0.5), (0.2, 0.3, 0.4), (0.95, 0.5, 0.5)]

def gen_skew(tier):
    L = list(itertools.product((0.0, 0.4, 1.0), repeat=3))
    for i, a in enumerate(SKEW):
        for j, l in enumerate(L):
            for cs in (1.0, 2.5) if tier == 'quick' else (0.7, 1.0, 1.6, 2.5, 4.0):
                if tier == 'quick' and (i + j) % 2:
                    continue
                yield [list(l), list(a), cs]

@chk.group(gen_skew)
def skewed(case, ctx):
    lf, af, cs = case
    sym = ['C', 'H']
    kw = dict(angle_range=[25.0, 155.0], vol_range_scale=[1e-3, 50.0], length_range_scale=[0.3, 2.5], close_scale=cs, cell_maxtry=1, atom_maxtry=1)
    cfg = config(sym, 4, kw['angle_range'], kw['vol_range_scale'], kw['length_range_scale'], cs)
    cc = np.concatenate((np.array(cfg['lr'][0]) + (cfg['lr'][1] - cfg['lr'][0]) * np.array(lf), 25 + 130 * np.array(af)))
    if not cc_ok(cc, cfg):
        ctx.trivial()
        return
    cm = co.cc2cell(cc)
    lim = cs * sum(cfg['r'])
    out = [0, 0]
    for p in itertools.product((0.0, 0.13, 0.3, 0.49, 0.62, 0.88), repeat=3):
        sc = Script(lambda k: 0, 0)
        it, pos = iter([tuple(lf), tuple(af)]), iter([(0.25, 0.7, 0.05), tuple((np.array(p) + (0.25, 0.7, 0.05)) % 1)])
        def pick(alphabet, default):
            sc.n += 1
            return next(pos, (.5, .5, .5)) if alphabet is POS else next(it, (.5, .5, .5))
        sc.pick = pick
        rs = R.RandomStructure(sym, **kw)
        try:
            st = scripted(sc, rs.get_random_struct)
        except R.RandomStructureFail:
            st = None
        d = np.array(p) - np.round(p)
        dist = np.sqrt((((d + BIG) @ cm) ** 2).sum(axis=1)).min()
        ctx.eval(1)
        if abs(dist - lim) < 1e-6 * lim:
            continue
        out[dist > lim] += 1
        check((st is not None) == (dist > lim), lambda: 'cell %r, atoms %r apart: minimum distance %.4f, allowed %.4f: %s' % (cc, p, dist, lim, 'refused' if st is None else 'accepted'))
    if not all(out):
        ctx.trivial()
