"""P08: trajectory indexing, slicing, iteration against a list of steps."""
import itertools
import numpy as np
from mc import *
import co
from pwtools import crys

chk = Check('P08', level='model_checking',
    rule='Model: a plain list of steps. All indices and slices of trajectories of every length, all pairs of slices applied one after the other, and all interleavings of up to three iterators plus index accesses (state: positions of the iterators) are run on the real object and compared with the list. Non-trivial: the trajectory has more than one step.',
    assumptions=['slices are not empty unless stated', 'the time step after a reversed slice is compared by magnitude'])

SY = ['O', 'H', 'Al']

def make(n, full):
    base = co.CELLS['tri']
    cells = co.vcells(base, n)
    kw = dict(coords_frac=np.array([co.gen_frac(3, t) for t in range(n)]), cell=cells, symbols=list(SY))
    if full:
        kw.update(forces=co.gen_arr((n, 3, 3), 1), stress=co.gen_arr((n, 3, 3), 2), etot=co.gen_arr((n,), 3),
                  velocity=co.gen_arr((n, 3, 3), 4), timestep=0.5)
    return crys.Trajectory(**kw)

NST = ['coords', 'coords_frac', 'stress', 'forces', 'velocity', 'cell', 'cryst_const', 'pressure', 'volume', 'etot', 'ekin', 'temperature', 'time']
ONLY = ['nstep', 'timestep', 'time', 'ekin', 'velocity', 'temperature']
FIXED = ['symbols', 'symbols_unique', 'order', 'typat', 'znucl', 'znucl_unique', 'ntypat', 'nspecies', 'natoms', 'mass', 'mass_unique']

def model(tr):
    return {k: (None if getattr(tr, k) is None else [np.array(x) for x in getattr(tr, k)]) for k in NST}

def cmp_fixed(obj, tr, what):
    for k in FIXED:
        a, b = getattr(obj, k), getattr(tr, k)
        check(np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b, '%s: %s changed' % (what, k))

def cmp_struct(st, tr, m, i, what):
    check(st.is_struct, what + ': not a Structure')
    for k in NST:
        if k in ONLY:
            continue
        got, v = getattr(st, k), m[k]
        if v is None:
            check(got is None, '%s: %s' % (what, k))
        else:
            check(got is not None and np.array_equal(got, v[i]), lambda: '%s: %s is %s expected %s' % (what, k, got, v[i]))
    for k in ONLY:
        check(getattr(st, k, None) is None, '%s: structure has %s' % (what, k))
    cmp_fixed(st, tr, what)

def cmp_traj(t2, tr, m, idx, dt, what):
    check(t2.is_traj, what + ': not a Trajectory')
    for k in NST:
        got, v = getattr(t2, k), m[k]
        if v is None:
            check(got is None, '%s: %s' % (what, k))
        else:
            check(got is not None and len(got) == len(idx) and all(np.array_equal(g, v[i]) for g, i in zip(got, idx)),
                  lambda: '%s: %s is %s' % (what, k, short(repr(got), 300)))
    check(t2.nstep == len(idx), '%s: nstep %s' % (what, t2.nstep))
    if dt is None:
        check(t2.timestep is None, what + ': timestep')
    else:
        check(t2.timestep is not None and abs(abs(t2.timestep) - dt) < 1e-12, lambda: '%s: timestep %s expected %s' % (what, t2.timestep, dt))
    cmp_fixed(t2, tr, what)

def slices(n):
    for a in [None] + list(range(-n - 1, n + 2)):
        for b in [None] + list(range(-n - 1, n + 2)):
            for c in (None, 1, 2, 3, -1, -2):
                if len(range(n)[a:b:c]) > 0:
                    yield slice(a, b, c)

def gen_sl(tier):
    for n in range(1, 7 if tier == 'quick' else 9):
        for full in (0, 1):
            yield [n, full]

@chk.group(gen_sl)
def index_and_slice(case, ctx):
    n, full = case
    if n == 1:
        ctx.trivial()
    tr = make(n, full)
    before = freeze(tr)
    m = model(tr)
    ctx.count('states')
    for i in list(range(-n, n)) + [np.int64(j) for j in range(-n, n)]:
        cmp_struct(tr[i], tr, m, int(i) % n, 'index %s of %i' % (i, n))
        ctx.eval(); ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    for i in (n, n + 1, -n - 1, -n - 5, 10 * n):
        check(raises(lambda: tr[i], IndexError) is not None, 'index %i of %i accepted' % (i, n))
    for s in slices(n):
        idx = list(range(n)[s])
        st = abs(s.step or 1)
        cmp_traj(tr[s], tr, m, idx, 0.5 * st if full else None, 'slice %s of %i' % (s, n))
        ctx.eval(); ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    check(freeze(tr) == before, 'original trajectory changed')

def gen_nest(tier):
    for n in range(2, 5 if tier == 'quick' else 7):
        for si in range(len(list(slices(n)))):
            yield [n, si]

@chk.group(gen_nest)
def nested_slices(case, ctx):
    n, si = case
    tr = make(n, 1)
    before = freeze(tr)
    m = model(tr)
    s = list(slices(n))[si]
    idx = list(range(n)[s])
    t1 = tr[s]
    dt1 = 0.5 * abs(s.step or 1)
    for k in range(-len(idx), len(idx)):
        cmp_struct(t1[k], tr, m, idx[k], 'slice %s, index %i' % (s, k))
    got = [st for st in t1]
    check(len(got) == len(idx), 'loop over slice: %i steps' % len(got))
    for st, i in zip(got, idx):
        cmp_struct(st, tr, m, i, 'loop over slice %s' % s)
    for s2 in slices(len(idx)):
        if s2.start is not None and s2.start < -1 or s2.stop is not None and s2.stop < -1:
            continue
        idx2 = idx[s2]
        cmp_traj(t1[s2], tr, m, idx2, dt1 * abs(s2.step or 1), 'slice %s of slice %s' % (s2, s))
        ctx.eval(); ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    t1.set_all()                 # derived from the slice, not the original
    cmp_traj(t1, tr, m, idx, dt1, 'slice %s set up again' % s)
    check(freeze(tr) == before, 'original trajectory changed')
    ctx.count('states')

# iterator interleavings: actions n0, n1, n2 = advance iterator k (created at
# its first use), i = index access, b = abandon all and start a new loop
ACT = ['n0', 'n1', 'n2', 'i', 'b', 's']
def gen_iter(tier):
    for n in (1, 2, 3):
        for s in seqs(range(len(ACT)), 5 if tier == 'quick' else 6, 1):
            yield [n] + s

@chk.group(gen_iter)
def interleaved_loops(case, ctx):
    n, acts = case[0], case[1:]
    tr = make(n, 0)
    if len(set(acts)) == 1:
        ctx.trivial()
    ref = [np.array(x) for x in tr.coords]
    its, pos = {}, {}
    for a in acts:
        op = ACT[a]
        if op[0] == 'n':
            if op not in its:
                its[op] = iter(tr); pos[op] = 0
            if pos[op] < n:
                st = next(its[op])
                check(st.is_struct and np.array_equal(st.coords, ref[pos[op]]), 'step %i of loop %s after %s' % (pos[op], op, [ACT[x] for x in acts]))
                pos[op] += 1
            else:
                check(raises(lambda: next(its[op]), StopIteration) is not None, 'loop does not end: %s' % [ACT[x] for x in acts])
                del its[op]
        elif op == 'i':
            check(np.array_equal(tr[n - 1].coords, ref[n - 1]), 'index')
        elif op == 'b':
            for k, st in enumerate(tr):
                check(np.array_equal(st.coords, ref[0]), 'first step of a new loop after %s' % [ACT[x] for x in acts])
                break
        else:
            got = [st.coords for st in tr[::-1]]
            check(len(got) == n and all(np.array_equal(g, r) for g, r in zip(got, ref[::-1])), 'loop over reversed slice')
        ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    full = [st.coords for st in tr]
    check(len(full) == n and all(np.array_equal(g, r) for g, r in zip(full, ref)), 'complete loop after %s' % [ACT[x] for x in acts])
    ctx.count('states')

@chk.group(lambda tier: [[n, m] for n in range(1, 5) for m in range(1, 5)])
def nested_loops(case, ctx):
    n, m = case
    a, b = make(n, 0), make(m, 1)
    seen = [(x.volume, y.volume, z.volume) for x in a for y in b for z in a]
    exp = [(x, y, z) for x in a.volume for y in b.volume for z in a.volume]
    check(seen == exp, 'nested loops: %i of %i' % (len(seen), len(exp)))
    check([s.volume for s, t in zip(a, a)] == list(a.volume), 'zip of a trajectory with itself')
    check(list(map(lambda s: s.volume, a)) == list(a.volume), 'map')
    ctx.count('transitions', len(exp)); ctx.count('traces_validated_against_impl')
