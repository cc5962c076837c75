"""P34: symmetry: primitive cells, space groups, comparison, conversion."""
import itertools, math
import numpy as np
from mc import *
import co
from pwtools import crys, symmetry, atomic_data

chk = Check('P34', level='exploration',
    rule='13 crystal prototypes with known space group number and primitive atom count x supercells with repetitions 1..2 (thorough 1..3) per direction x orientation of the cell (3) x origin shift (3) x atom order (3) x choice of lattice vectors (3), every combination in the thorough tier and a fixed covering part in the quick one; all ordered pairs of a set of 30 variants for the comparison. Non-trivial: structures which are not primitive; pairs of different structures.',
    assumptions=['space group numbers and primitive atom counts of the prototypes are taken from the crystallographic tables',
                 'two cells describe the same crystal if volume per atom, composition and the species-resolved neighbour distances up to a radius of every kind of atom agree'])

ZN = dict(H=1, C=6, N=7, O=8, Na=11, Al=13, Si=14, S=16, Cl=17, Ti=22, Fe=26, Zn=30, Sr=38, In=49, Cs=55, Po=84)
FCC = [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
def add(base, off):
    return [[(a + b) % 1.0 for a, b in zip(p, off)] for p in base]
def proto(cell, sites):
    sy, fr = [], []
    for s, lst in sites:
        for p in lst:
            sy.append(s)
            fr.append(p)
    return np.array(cell, float), sy, np.array(fr, float)
hexa = lambda a, c: [[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]]
# name: (cell, symbols, frac), space group, atoms in the primitive cell
PROTO = {
    'fcc': (proto(4.05 * np.identity(3), [('Al', FCC)]), 225, 1),
    'bcc': (proto(2.87 * np.identity(3), [('Fe', [[0, 0, 0], [.5, .5, .5]])]), 229, 1),
    'sc': (proto(3.35 * np.identity(3), [('Po', [[0, 0, 0]])]), 221, 1),
    'diamond': (proto(5.43 * np.identity(3), [('Si', FCC + add(FCC, [.25] * 3))]), 227, 2),
    'nacl': (proto(5.64 * np.identity(3), [('Na', FCC), ('Cl', add(FCC, [.5] * 3))]), 225, 2),
    'zns': (proto(5.41 * np.identity(3), [('Zn', FCC), ('S', add(FCC, [.25] * 3))]), 216, 2),
    'cscl': (proto(4.12 * np.identity(3), [('Cs', [[0, 0, 0]]), ('Cl', [[.5, .5, .5]])]), 221, 2),
    'perov': (proto(3.9 * np.identity(3), [('Sr', [[0, 0, 0]]), ('Ti', [[.5, .5, .5]]), ('O', [[.5, .5, 0], [.5, 0, .5], [0, .5, .5]])]), 221, 5),
    'wurtz': (proto(hexa(3.25, 5.2), [('Zn', [[1/3, 2/3, 0], [2/3, 1/3, .5]]), ('O', [[1/3, 2/3, .382], [2/3, 1/3, .882]])]), 186, 4),
    'graph': (proto(hexa(2.46, 6.7), [('C', [[0, 0, .25], [0, 0, .75], [1/3, 2/3, .25], [2/3, 1/3, .75]])]), 194, 4),
    'rutile': (proto(np.diag([4.59, 4.59, 2.96]), [('Ti', [[0, 0, 0], [.5, .5, .5]]), ('O', [[.305, .305, 0], [.695, .695, 0], [.195, .805, .5], [.805, .195, .5]])]), 136, 6),
    'bct': (proto(np.diag([3.25, 3.25, 4.95]), [('In', [[0, 0, 0], [.5, .5, .5]])]), 139, 1),
    'tric': (proto(co.cc2cell([5.0, 6.1, 7.3, 82, 97, 105]), [('N', [[.1, .2, .3]]), ('O', [[.65, .31, .84]]), ('H', [[.4, .77, .12]])]), 1, 3),
}
def rot(a, b):
    ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
    return np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]])
ROT = [np.identity(3), rot(.7, .4), rot(-2.1, 1.3)]
SHIFT = [[0, 0, 0], [.13, .27, .41], [.5, .25, 0]]
UNI = [np.identity(3, int), np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]), np.array([[1, 0, 0], [0, 1, -1], [1, 0, 1]])]

def order_idx(n, k):
    return list(range(n)) if k == 0 else list(range(n))[::-1] if k == 1 else [i for j in range(3) for i in range(j, n, 3)]

def variant(name, rep, r, s, o, u):
    (cell, sy, fr), sg, np_ = PROTO[name]
    fr = fr + np.array(SHIFT[s])
    allf, alls = [], []
    for i, j, k in itertools.product(*map(range, rep)):
        for p, x in zip(fr, sy):
            allf.append([(p[0] + i) / rep[0], (p[1] + j) / rep[1], (p[2] + k) / rep[2]])
            alls.append(x)
    big = np.array([cell[d] * rep[d] for d in range(3)])
    cart = np.array(allf) @ big
    newcell = UNI[u] @ big
    fr2 = np.linalg.solve(newcell.T, cart.T).T % 1.0
    fr2[fr2 > 1 - 1e-9] = 0.0
    idx = order_idx(len(alls), o)
    return crys.Structure(coords_frac=fr2[idx], cell=newcell @ ROT[r].T, symbols=[alls[i] for i in idx])

def shells(st, radius):
    """sorted tuples (symbol, ((symbol of neighbour, distance), ...)) per atom"""
    cell = np.array(st.cell)
    vol = abs(np.linalg.det(cell))
    n = [int(math.ceil(radius * np.linalg.norm(np.cross(cell[(d + 1) % 3], cell[(d + 2) % 3])) / vol)) + 1 for d in range(3)]
    im = np.array(list(itertools.product(*[range(-k, k + 1) for k in n]))) @ cell
    pos = np.array(st.coords_frac) @ cell
    out = []
    for i, p in enumerate(pos):
        l = []
        for j, q in enumerate(pos):
            d = np.sqrt(((q - p + im) ** 2).sum(axis=1))
            l += [(st.symbols[j], round(x, 3)) for x in d[(d > 1e-6) & (d < radius)]]
        out.append((st.symbols[i], sorted(l)))
    return out

def distinct(sh):
    """merge atoms with the same surroundings (to 2e-3) and count them"""
    out = []
    for s, l in sh:
        for e in out:
            if e[0] == s and len(e[1]) == len(l) and all(a[0] == b[0] and abs(a[1] - b[1]) < 2e-3 for a, b in zip(e[1], l)):
                e[2] += 1
                break
        else:
            out.append([s, l, 1])
    return out

def match(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(x[0] == y[0] and abs(x[1] - y[1]) < 3e-3 for x, y in zip(a[1], b[1]))

def comp(sy):
    return {s: sy.count(s) for s in set(sy)}

def gen_prim(tier):
    n = 3 if tier == 'quick' else 4
    c = 0
    for name in PROTO:
        for rep in itertools.product(range(1, n), repeat=3):
            if len(PROTO[name][0][1]) * rep[0] * rep[1] * rep[2] > (32 if tier == 'quick' else 72):
                continue
            for v in itertools.product(range(3), repeat=4):
                c += 1
                if tier == 'quick' and (c + v[0] + v[1] + v[2] + v[3]) % 9:
                    continue
                if tier != 'quick' and max(rep) == 3 and (c + sum(v)) % 9:
                    continue
                yield [name, list(rep)] + list(v)

@chk.group(gen_prim)
def primitive(case, ctx):
    name = case[0]
    _, sg, npr = PROTO[name]
    st = variant(*case)
    keep = freeze([st.cell, st.coords_frac, st.symbols])
    num_, sym = symmetry.spglib_get_spacegroup(st)
    check(num_ == sg and isinstance(num_, int) and isinstance(sym, str) and '(' not in sym, 'space group %r, expected %i' % ((num_, sym), sg))
    ratio = st.natoms // npr
    pr = symmetry.spglib_get_primitive(st)
    check(freeze([st.cell, st.coords_frac, st.symbols]) == keep, 'argument changed')
    if ratio == 1:
        ctx.trivial()
    if pr is None:
        check(ratio == 1, 'reducible structure (%i atoms instead of %i) called irreducible' % (st.natoms, npr))
        return
    check(isinstance(pr, crys.Structure) and pr.natoms == npr, 'primitive cell has %r atoms, expected %i' % (pr.natoms, npr))
    assert_close(pr.volume, abs(co.volume(st.cell)) / ratio, 'volume of the primitive cell', 1e-5, 0)
    ca, cb = comp(st.symbols), comp(pr.symbols)
    check(ca == {k: v * ratio for k, v in cb.items()}, 'composition %r of the primitive cell of %r' % (cb, ca))
    check(symmetry.spglib_get_spacegroup(pr)[0] == sg, 'space group of the primitive cell')
    again = symmetry.spglib_get_primitive(pr)
    check(again is None or again.natoms == npr, 'primitive cell reduced again')
    radius = 1.3 * (abs(co.volume(st.cell)) / st.natoms * 8) ** (1 / 3.)
    a, b = distinct(shells(st, radius)), distinct(shells(pr, radius))
    # border effects: distances within 5e-3 of the radius are left out
    cut = lambda l: [(x[0], [y for y in x[1] if y[1] < radius - 0.05], x[2]) for x in l]
    a, b = cut(a), cut(b)
    for x in a:
        check(any(match(x, y) for y in b), 'surroundings of a %s atom do not occur in the primitive cell' % x[0])
    for y in b:
        check(any(match(x, y) for x in a), 'surroundings of a %s atom of the primitive cell do not occur in the structure' % y[0])
    ctx.eval(3)

def gen_sup(tier):
    for name in PROTO:
        for rep in itertools.product((1, 2), repeat=3):
            yield [name, list(rep)]

@chk.group(gen_sup)
def supercell(case, ctx):
    name, rep = case
    st0 = variant(name, [1, 1, 1], 1, 0, 0, 0)
    sc = crys.scell(st0, rep)
    check(symmetry.spglib_get_spacegroup(sc)[0] == PROTO[name][1], 'space group of the supercell')
    pr = symmetry.spglib_get_primitive(sc)
    n = 1 if pr is None else 0
    check(n == 0 or sc.natoms == PROTO[name][2], 'supercell called irreducible')
    if pr is not None:
        check(pr.natoms == PROTO[name][2], 'atoms in the primitive cell')
        assert_close(pr.volume, st0.volume * PROTO[name][2] / st0.natoms, 'volume', 1e-5, 0)
    # keywords reach spglib: a displaced atom breaks the symmetry only if symprec is small
    f = np.array(sc.coords_frac)
    if sc.natoms > 1:
        d = np.array([3e-3, 1.7e-3, 2.3e-3]) @ np.linalg.inv(np.array(sc.cell))
        f[0] += d
        dis = crys.Structure(coords_frac=f, cell=sc.cell, symbols=sc.symbols)
        check(symmetry.spglib_get_spacegroup(dis, symprec=0.05)[0] == PROTO[name][1], 'space group with large symprec')
        if name != 'tric':
            check(symmetry.spglib_get_spacegroup(dis, symprec=1e-4)[0] != PROTO[name][1], 'space group with small symprec')
        pr = symmetry.spglib_get_primitive(dis, symprec=0.05)
        check((sc.natoms if pr is None else pr.natoms) == PROTO[name][2], 'primitive cell with large symprec')
        ctx.eval(2)

# --- comparison -----------------------------------------------------------------
def mk_variants():
    out = {}
    cell, sy, fr = PROTO['rutile'][0]
    base = dict(cell=cell, symbols=sy, coords_frac=fr)
    out['base'] = base
    out['tiny'] = dict(base, coords_frac=fr + 1e-10)
    out['rot'] = dict(base, cell=cell @ ROT[1].T)
    out['shift'] = dict(base, coords_frac=fr + [.1, 0, 0])
    for i in range(6):
        g = fr.copy()
        g[i, i % 3] += 0.01
        out['move%i' % i] = dict(base, coords_frac=g)
        s = list(sy)
        s[i] = 'Si'
        out['sym%i' % i] = dict(base, symbols=s)
    out['perm'] = dict(base, symbols=sy[::-1], coords_frac=fr[::-1])
    out['swap'] = dict(base, symbols=sy[::-1])
    for d in range(3):
        c = cell.copy()
        c[d] *= 1.01
        out['len%i' % d] = dict(base, cell=c)
    out['shear'] = dict(base, cell=cell + np.array([[0, 0, 0], [.1, 0, 0], [0, 0, 0]]))
    out['axes'] = dict(base, cell=cell[[1, 2, 0]])
    # same cell constants and volume in another order of lengths
    out['less'] = dict(base, symbols=sy[:-1], coords_frac=fr[:-1])
    out['more'] = dict(base, symbols=sy + ['O'], coords_frac=np.vstack((fr, [[.1, .1, .1]])))
    one = PROTO['cscl'][0]
    out['cscl'] = dict(cell=one[0], symbols=one[1], coords_frac=one[2])
    out['scl'] = dict(cell=one[0], symbols=one[1][::-1], coords_frac=one[2])
    return {k: crys.Structure(**v) for k, v in out.items()}

VAR = mk_variants()

def gen_same(tier):
    for a in VAR:
        for b in VAR:
            yield [a, b]

@chk.group(gen_same)
def same(case, ctx):
    a, b = (VAR[k] for k in case)
    want = list(a.symbols) == list(b.symbols)
    if want:
        want = bool(np.abs(np.array(a.coords_frac) - np.array(b.coords_frac)).max() < 1e-6 and
                    np.abs(np.array(co.cell2cc(a.cell)) - np.array(co.cell2cc(b.cell))).max() < 1e-6)
    if case[0] == case[1]:
        ctx.trivial()
    got = symmetry.is_same_struct(a, b)
    check(bool(got) == want and got in (True, False), 'is_same_struct(%s, %s) = %r' % (case[0], case[1], got))
    ctx.eval(1)

def gen_conv(tier):
    for name in PROTO:
        for r in range(3):
            for o in range(3):
                yield [name, r, o]

@chk.group(gen_conv)
def convert(case, ctx):
    name, r, o = case
    st = variant(name, [1, 1, 2], r, 1, o, 1)
    for tup in (st.get_spglib(), symmetry.struct2spglib(st)):
        check(isinstance(tup, tuple) and len(tup) == 3, 'tuple')
        check((np.array(tup[0]) == st.cell).all() and (np.array(tup[1]) == st.coords_frac).all(), 'cell and coords')
        check([ZN[s] for s in st.symbols] == list(tup[2]), 'atomic numbers %r of %r' % (tup[2], st.symbols))
    st2 = symmetry.spglib2struct(tup)
    for k in ('cell', 'coords_frac', 'coords', 'cryst_const', 'volume'):
        assert_close(getattr(st2, k), getattr(st, k), k, 1e-12, 1e-12)
    check(st2.symbols == list(st.symbols), 'symbols')
    check(raises(lambda: symmetry.spglib2struct(tup[:2])) and raises(lambda: symmetry.spglib2struct(list(tup))), 'wrong tuple accepted')
    if case == ['fcc', 0, 0]:
        for z in range(1, len(atomic_data.symbols)):
            s = symmetry.spglib2struct((st.cell, np.zeros((1, 3)), [z]))
            check(s.znucl == [z] and s.symbols == [atomic_data.symbols[z]], 'element %i' % z)
            check(s.get_spglib()[2] == [z], 'element %i there and back' % z)
    ctx.eval(2)
