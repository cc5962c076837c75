"""P17: nearest neighbours."""
import itertools
import numpy as np
from mc import *
import co
from pwtools import crys

chk = Check('P17', level='exploration',
    rule='All structures of a position grid (all symbol patterns) x central atom x number 0..n+1 or cutoff (between and beyond all distances) x skip lists (none, each subset, unknown) x pbc x sort x distances x precomputed. Oracle: sorted brute-force list; ties are accepted in any order. Non-trivial: at least one neighbour expected.',
    assumptions=['distances are those of crys.distances (decided by P15)', 'cutoffs do not coincide with a distance'])

GEO = {'line': [[.05, .1, .1], [.3, .1, .1], [.65, .1, .1], [.9, .1, .1]],
       'gen': None,
       'sym': [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]],
       'out': [[-1.2, 2.1, .3], [.1, .2, .3], [1.9, -.4, .8], [.2, .2, 5.3]],
       'same': [[.1, .1, .1], [.1, .1, .1], [.4, .1, .2], [.1, .1, .1]]}

def gen(tier):
    cells = ['tri', 'fcc'] if tier == 'quick' else list(co.CELLS)
    for c in cells:
        for g in GEO:
            for n in (1, 2, 3, 4):
                for sy in itertools.product(['H', 'O', 'N'], repeat=n):
                    if sy[0] == 'H' and (tier != 'quick' or list(dict.fromkeys(sy)) == ['H', 'O', 'N'][:len(set(sy))]):
                        yield [c, g, list(sy)]

@chk.group(gen)
def search(case, ctx):
    c, g, sy = case
    n = len(sy)
    f = co.gen_frac(4, 2, -0.2, 1.3) if GEO[g] is None else np.array(GEO[g], dtype=float)
    st = crys.Structure(coords_frac=f[:n], cell=co.CELLS[c], symbols=list(sy))
    fr = freeze(st)
    u = sorted(set(sy))
    skips = [None, 'X', 'H', ['H'], ['X', 'Y']] + [s for s in subsets(u, 1)] + [tuple(u)]
    any_ = False
    for pbc in (True, False):
        dists = crys.distances(st, pbc=pbc)
        frd = freeze(dists)
        ds = sorted(set(np.round(dists.ravel(), 7)))
        cuts = [(a + b) / 2 for a, b in zip(ds[:-1], ds[1:])] + [ds[-1] + 1, 1e-9]
        for idx in list(range(n)) + [-1]:
            ii = idx % n
            for skip in skips:
                sk = [] if skip is None else ([skip] if isinstance(skip, str) else list(skip))
                allowed = [j for j in range(n) if j != ii and sy[j] not in sk]
                dl = {j: float(dists[j, ii]) for j in allowed}
                srt = sorted(dl.values())
                for kw in [dict(num=k) for k in range(0, n + 2)] + [dict(cutoff=x) for x in cuts]:
                    kw = dict(kw, idx=idx, skip=skip, pbc=pbc)
                    what = '%s %s %s %s' % (c, g, sy, kw)
                    ni, nd = crys.nearest_neighbors(st, fullout=True, **kw)
                    ni = [int(x) for x in ni]
                    nd = np.asarray(nd)
                    check(len(set(ni)) == len(ni), what + ': atom returned twice')
                    check(ii not in ni, what + ': central atom returned')
                    check(all(j in dl for j in ni), lambda: what + ': skipped atom returned: %s' % ni)
                    if 'num' in kw:
                        check(len(ni) == min(kw['num'], len(allowed)), lambda: what + ': %i atoms returned: %s' % (len(ni), ni))
                        assert_close([dl[j] for j in ni], srt[:len(ni)], what + ': not the nearest atoms', 0, 1e-9)
                    else:
                        want = sorted(j for j in allowed if dl[j] < kw['cutoff'])
                        check(sorted(ni) == want, lambda: what + ': got %s expected %s' % (sorted(ni), want))
                        check(all(a <= b + 1e-9 for a, b in zip([dl[j] for j in ni][:-1], [dl[j] for j in ni][1:])), what + ': order')
                    assert_close(nd, [dl[j] for j in ni], what + ': distances', 0, 1e-12)
                    any_ = any_ or bool(ni)
                    # other interfaces
                    check([int(x) for x in crys.nearest_neighbors(st, **kw)] == ni, what + ': fullout=False')
                    k2 = {a: b for a, b in kw.items()}
                    p = crys.nearest_neighbors_from_dists(dists, list(sy), fullout=True, **k2)
                    check([int(x) for x in p[0]] == ni, what + ': precomputed distances')
                    us, ud = crys.nearest_neighbors(st, sort=False, fullout=True, **kw)
                    check([int(x) for x in us] == sorted(ni), lambda: what + ': sort=False gives %s' % us)
                    assert_close(ud, [dl[j] for j in sorted(ni)], what + ': sort=False distances', 0, 1e-12)
                    sub = crys.nearest_neighbors_struct(st, **kw)
                    keep = sorted(ni + [ii])
                    check(sub.symbols == [sy[j] for j in keep], what + ': structure of neighbours')
                    assert_close(sub.coords_frac, f[keep], what + ': structure of neighbours')
                    ctx.eval()
        check(freeze(dists) == frd, 'distances changed')
    check(freeze(st) == fr, 'structure changed')
    check(raises(lambda: crys.nearest_neighbors(st, idx=0, num=1, cutoff=1.0)) is not None, 'num and cutoff accepted')
    check(raises(lambda: crys.nearest_neighbors(st, num=1)) is not None, 'no central atom accepted')
    if not any_:
        ctx.trivial()
