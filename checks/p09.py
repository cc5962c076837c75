"""P09: joining, repeating, averaging and mixing of structures."""
import itertools
import numpy as np
from mc import *
import co
from pwtools import crys

chk = Check('P09', level='exploration',
    rule='All sequences up to length 3 of structures and trajectories drawn from all combinations of step count and attribute pattern are joined; all attribute patterns and step counts are repeated, averaged and compressed; all mixing sets of a small grid are interpolated. Every result attribute is compared with an explicit per-step computation. Non-trivial: more than one step or input.',
    assumptions=['all inputs have the same atoms'])

SY = ['O', 'H', 'Al']
NST = ['coords', 'coords_frac', 'stress', 'forces', 'velocity', 'cell', 'cryst_const', 'pressure', 'volume', 'etot', 'ekin', 'temperature']
FIXED = ['symbols', 'symbols_unique', 'order', 'typat', 'znucl', 'znucl_unique', 'ntypat', 'nspecies', 'natoms', 'mass', 'mass_unique']

# nstep (0 = Structure) and attribute pattern bits: forces, stress, etot, lattice
def obj(ns, pat, seed):
    n = max(ns, 1)
    kw = dict(symbols=list(SY))
    cells = co.vcells(co.CELLS['tri'] * (1 + 0.01 * seed), n)
    kw['coords'] = co.gen_arr((n, 3, 3), seed)
    if pat & 1: kw['forces'] = co.gen_arr((n, 3, 3), seed + 50)
    if pat & 2: kw['stress'] = co.gen_arr((n, 3, 3), seed + 60)
    if pat & 4: kw['etot'] = co.gen_arr((n,), seed + 70)
    if pat & 8: kw['cell'] = cells
    if pat & 16: kw['symbols'] = list(SY)
    else: del kw['symbols']
    if ns == 0:
        return crys.Structure(**{k: (v[0] if k != 'symbols' else v) for k, v in kw.items()})
    if pat & 32:
        kw['velocity'] = co.gen_arr((n, 3, 3), seed + 80); kw['timestep'] = 0.5
    return crys.Trajectory(**kw)

def steps(o):
    """list of dicts of the attributes which are set"""
    out = []
    if o.is_struct:
        return [{k: np.array(getattr(o, k)) for k in NST if getattr(o, k, None) is not None}]
    for t in range(o.nstep):
        out.append({k: np.array(getattr(o, k)[t]) for k in NST if getattr(o, k) is not None})
    return out

def cmp(tr, exp, first, common_fixed, what):
    check(tr.is_traj and tr.nstep == len(exp), '%s: nstep %s expected %i' % (what, tr.nstep, len(exp)))
    names = set.intersection(*[set(e) for e in exp])
    for k in NST:
        got = getattr(tr, k)
        if k not in names:
            check(got is None, lambda: '%s: %s not common but %s' % (what, k, short(repr(got), 200)))
        else:
            check(got is not None and len(got) == len(exp), lambda: '%s: %s missing or wrong length' % (what, k))
            for t, e in enumerate(exp):
                check(close(got[t], e[k], 1e-12, 1e-12), lambda: '%s: %s at step %i' % (what, k, t))
    check(tr.timestep is None and tr.time is None, what + ': timestep')
    for k in FIXED:
        got = getattr(tr, k)
        if k in common_fixed:
            v = getattr(first, k)
            check(np.array_equal(got, v) if isinstance(v, np.ndarray) else got == v, '%s: %s' % (what, k))
        else:
            check(got is None, '%s: %s not common' % (what, k))

PATS = [16 + 8, 16 + 8 + 1, 16 + 8 + 6, 16 + 15, 16, 8 + 1, 16 + 8 + 4 + 32]
KINDS = [[ns, p] for ns in (0, 1, 2, 3) for p in PATS if not (ns == 0 and p & 32)]

def gen_cat(tier):
    for L in (1, 2):
        for s in itertools.product(range(len(KINDS)), repeat=L):
            yield list(s)
    sel = range(len(KINDS)) if tier == 'thorough' else range(0, len(KINDS), 2)
    for s in itertools.product(sel, repeat=3):
        yield list(s)
    if tier == 'thorough':
        for s in itertools.product(range(0, len(KINDS), 4), repeat=4):
            yield list(s)

@chk.group(gen_cat)
def join(case, ctx):
    objs = [obj(KINDS[k][0], KINDS[k][1], 3 * i + 1) for i, k in enumerate(case)]
    # the same object may appear again
    if len(case) == 3 and case[0] == case[2]:
        objs[2] = objs[0]
    if len(case) == 1:
        ctx.trivial()
    frozen = [freeze(o) for o in objs]
    exp = [e for o in objs for e in steps(o)]
    lst = list(objs)
    fixed = [k for k in FIXED if all(getattr(o, k) is not None for o in objs)]
    tr = crys.concatenate(lst)
    what = 'join %s' % [KINDS[k] for k in case]
    cmp(tr, exp, objs[0], fixed, what)
    check([freeze(o) for o in objs] == frozen and len(lst) == len(objs) and all(a is b for a, b in zip(lst, objs)), what + ': inputs changed')
    tr2 = crys.concatenate(tuple(objs))
    cmp(tr2, exp, objs[0], fixed, what + ' tuple')
    pa = crys.populated_attrs([crys.struct2traj(o) for o in objs])
    check(set(NST) & set(pa) == set.intersection(*[set(e) for e in exp]), 'populated_attrs')
    if len(objs) > 1:
        # joining in two stages gives the same
        t3 = crys.concatenate([crys.concatenate(objs[:-1]), objs[-1]])
        cmp(t3, exp, objs[0], fixed, what + ' in two stages')

def gen_one(tier):
    for ns in range(0, 6):
        for p in range(64):
            if not (ns == 0 and p & 32):
                yield [ns, p]

@chk.group(gen_one)
def repeat_and_mean(case, ctx):
    ns, pat = case
    o = obj(ns, pat, 5)
    fr = freeze(o)
    if ns == 1:
        ctx.trivial()
    if ns == 0:
        s = steps(o)[0]
        for n in (1, 2, 3, 7):
            tr = o.get_traj(n)
            cmp(tr, [s] * n, o, [k for k in FIXED if getattr(o, k) is not None], 'repeat %i' % n)
        t1 = crys.struct2traj(o)
        cmp(t1, [s], o, [k for k in FIXED if getattr(o, k) is not None], 'struct2traj')
    else:
        check(crys.struct2traj(o) is o, 'struct2traj of a trajectory')
        m = crys.mean(o)
        st = steps(o)
        check(m.is_struct, 'mean is no structure')
        for k in NST:
            got = getattr(m, k, None)
            if k in st[0]:
                check(got is not None and close(got, sum(e[k] for e in st) / ns, 1e-10, 1e-12), lambda: 'mean %s' % k)
            else:
                check(got is None, 'mean has %s' % k)
        for k in FIXED:
            v, got = getattr(o, k), getattr(m, k)
            check(np.array_equal(got, v) if isinstance(v, np.ndarray) else got == v, 'mean: %s' % k)
        cp = m.copy()
        for k in NST:
            if k in st[0]:
                check(k in m.attr_lst and close(getattr(cp, k), getattr(m, k), 0, 0), 'copy of the mean: %s' % k)
        # force the recalculation of something (documented)
        if pat & 8:
            m.coords_frac = None
            m.set_all()
            assert_close(m.coords_frac, co.c2f(m.coords, m.cell), 'recalculated')
    check(freeze(o) == fr, 'input changed')

def gen_mix(tier):
    al = [[0.0], [1.0], [0.0, 1.0], [0.5], [0.0, 0.25, 0.5, 1.0], [1.0, 0.0], [-0.5, 1.5], [i / 10.0 for i in range(11)]]
    for ai in range(len(al)):
        for p1 in range(0, 8):
            for p2 in range(0, 8):
                yield [al[ai], p1, p2]

@chk.group(gen_mix)
def mixing(case, ctx):
    al, p1, p2 = case
    a, b = obj(0, p1 | 24, 1), obj(0, p2 | 24, 2)
    fr = freeze([a, b])
    arr = np.array(al)
    tr = crys.mix(a, b, arr)
    check(freeze([a, b]) == fr and arr.tolist() == al, 'inputs changed')
    check(tr.is_traj and tr.nstep == len(al), 'nstep')
    check(tr.symbols == SY, 'symbols')
    for t, x in enumerate(al):
        cell = (1 - x) * a.cell + x * b.cell
        crd = (1 - x) * a.coords + x * b.coords
        assert_close(tr.cell[t], cell, 'cell %g' % x)
        assert_close(tr.coords[t], crd, 'coords %g' % x)
        assert_close(tr.coords_frac[t], co.c2f(crd, cell), 'coords_frac %g' % x)
        assert_close(tr.cryst_const[t], co.cell2cc(cell), 'cryst_const')
        assert_close(tr.volume[t], co.volume(cell), 'volume')
        if p1 & 1 and p2 & 1:
            assert_close(tr.forces[t], (1 - x) * a.forces + x * b.forces, 'forces')
    if not (p1 & 1 and p2 & 1):
        check(tr.forces is None, 'forces from nowhere')
    check(tr.etot is None and tr.stress is None, 'etot, stress')

def gen_comp(tier):
    names = ['forces', 'stress', 'coords', 'cryst_const', 'velocity', 'cell']
    for f in subsets(names):
        for ns in (0, 1, 3):
            yield [ns, f]

@chk.group(gen_comp)
def compressing(case, ctx):
    ns, forget = case
    o = obj(ns, 31 + (32 if ns else 0), 3)
    fr = freeze(o)
    for dt in (np.float32, np.float16):
        c = crys.compress(o, forget=list(forget), dtype=dt)
        check(freeze(o) == fr, 'original changed')
        for k in NST + FIXED:
            if not hasattr(o, k) or (ns == 0 and k in ('velocity', 'ekin', 'temperature')):
                continue
            v, got = getattr(o, k), getattr(c, k)
            if k in forget:
                check(got is None, 'not forgotten: ' + k)
            elif isinstance(v, np.ndarray):
                check(got.dtype == dt and np.array_equal(got, v.astype(dt)), 'compressed ' + k)
            elif k not in ('volume', 'pressure', 'etot') or ns:
                check(got == v, 'compressed ' + k)
    inpl = o.copy()
    r = crys.compress(inpl, copy=False, forget=list(forget))
    check(r is inpl and all(getattr(r, k) is None for k in forget), 'in place')
