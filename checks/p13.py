"""P13: HDF5 dictionaries against a model of the file, object dumps."""
import itertools, os, pickle
import numpy as np
from mc import *
import co
from pwtools import crys, io, common, parse, num, thermo

chk = Check('P13', level='model_checking',
    rule='All sequences of write operations (mode x dictionary) up to a depth on one HDF5 file; after every operation the whole file is read and compared with an explicit model of the file (map from path to value, groups implied). All value kinds x key forms. All objects which have dump(), dumped and loaded in every way. Non-trivial: at least one write.',
    assumptions=['a refused write may store the entries which precede the offending one', 'keys are plain group names'])

VALS = [1, -2.5, 'abc', '', 'äöü ∂', np.arange(3), np.arange(6.0).reshape(2, 3) / 7.0, np.zeros((0,)), np.float64(2.5),
        np.array(3), np.array([True, False]), True, np.arange(8).reshape(2, 2, 2) * 1j + 0.5, [1.5, 2.5], np.float32(0.25),
        np.array([[1]], dtype=np.int32), 10**12, float('inf'), np.array([np.inf, -0.0])]

def norm(k):
    return k if k.startswith('/') else '/' + k

def eqv(got, exp):
    if isinstance(exp, str):
        return isinstance(got, str) and got == exp
    e = np.asarray(exp)
    g = np.asarray(got)
    return g.shape == e.shape and g.dtype == e.dtype and bool((g == e).all())

# ---- histories -------------------------------------------------------------
DCTS = [
    [('a', 1.5)],
    [('/a', 2)],
    [('g/x', 'txt'), ('/b', 3)],
    [('/g/x', 4), ('g/y', 5.5)],
    [('a/sub', 6)],
    [('/g/h/z', 7), ('a', 8)],
    [('g', 9)],
    [],
]

class Model:
    def __init__(self):
        self.d = None

    def write(self, items, mode):
        """True if accepted"""
        if mode == 'w' or self.d is None:
            self.d = {}
        for k, v in items:
            k = norm(k)
            parts = k.strip('/').split('/')
            groups = ['/' + '/'.join(parts[:i]) for i in range(1, len(parts))]
            if k in self.d or any(g in self.d for g in groups) or any(x.startswith(k + '/') for x in self.d):
                return False
            self.d[k] = v
        return True

def gen_hist(tier):
    ops = [[m, i] for i in range(len(DCTS)) for m in ('a', 'w')]
    for s in seqs(ops, 3 if tier == 'quick' else 4, 1):
        yield s

@chk.group(gen_hist)
def histories(case, ctx):
    d = ctx.tmp()
    fn = os.path.join(d, 'f.h5')
    m = Model()
    for n, (mode, i) in enumerate(case):
        dct = dict(DCTS[i])
        before = freeze(dct)
        ok = m.write(DCTS[i], mode)
        def w():
            if mode == 'a' and n % 2 == 0:
                io.write_h5(fn, dct)
            else:
                io.write_h5(fn, dct, mode=mode)
        e = raises(w)
        check((e is None) == ok, lambda: 'step %i: model says %s, library: %r' % (n, 'accepted' if ok else 'refused', e))
        del e
        check(freeze(dct) == before, 'the dictionary was changed')
        ctx.count('transitions')
        if n < len(case) - 1:
            continue            # prefixes are cases of their own
        got = io.read_h5(fn)
        check(sorted(got) == sorted(m.d), lambda: 'keys %s expected %s' % (sorted(got), sorted(m.d)))
        for k, v in m.d.items():
            check(eqv(got[k], v), lambda: '%s: %r expected %r' % (k, got[k], v))
        check(os.listdir(d) == ['f.h5'], 'files')
    ctx.count('states')
    ctx.count('traces_validated_against_impl')

# ---- values ----------------------------------------------------------------
def gen_vals(tier):
    for i, key, mode in itertools.product(range(len(VALS)), ('k', '/k', 'g1/g2/k', '/g 1/k.b'), ('a', 'w')):
        yield [i, key, mode]
    for i, j in itertools.permutations(range(len(VALS)), 2):
        yield [i, j]

@chk.group(gen_vals)
def values(case, ctx):
    fn = os.path.join(ctx.tmp(), 'v.hdf')
    if len(case) == 3:
        d = {case[1]: VALS[case[0]]}
        io.write_h5(fn, d, mode=case[2])
    else:
        d = {'x/p': VALS[case[0]], 'x/q': VALS[case[1]]}
        io.write_h5(fn, d)
    for rep in range(2):
        got = io.read_h5(fn) if rep == 0 else io.load_h5(fn)
        check(sorted(got) == sorted(norm(k) for k in d), lambda: 'keys %s' % sorted(got))
        for k, v in d.items():
            check(eqv(got[norm(k)], v), lambda: '%s: %r expected %r' % (k, got[norm(k)], v))
    # what was read can be written again
    io.write_h5(fn, got, mode='w')
    g2 = io.read_h5(fn)
    check(sorted(got) == sorted(g2) and all(eqv(g2[k], got[k]) for k in got), 'read, write, read')

# ---- objects ---------------------------------------------------------------
def mkobj(kind):
    sy = ['Al', 'N', 'O']
    cell = co.CELLS['tri']
    if kind.startswith('struct'):
        kw = dict(symbols=sy, cell=cell.copy(), coords_frac=co.gen_frac(3))
        if kind == 'struct-full':
            kw.update(forces=co.gen_arr((3, 3)), stress=co.gen_arr((3, 3), 2), etot=-3.25, units={'length': 2.0})
        if kind == 'struct-lazy':
            kw.update(set_all_auto=False)
        if kind == 'struct-empty':
            kw = {}
        return crys.Structure(**kw)
    if kind.startswith('traj'):
        kw = dict(symbols=sy, cell=cell.copy(), coords=co.gen_arr((4, 3, 3)), timestep=2.0)
        if kind == 'traj-full':
            kw.update(forces=co.gen_arr((4, 3, 3), 3), etot=co.gen_arr((4,), 4), stress=co.gen_arr((4, 3, 3), 5),
                      units={'energy': 2.0}, velocity=co.gen_arr((4, 3, 3), 6))
        if kind == 'traj-lazy':
            kw.update(set_all_auto=False)
        return crys.Trajectory(**kw)
    if kind == 'parser':
        with open('x.pdb', 'w') as f:
            f.write('CRYST1   52.000   58.600   61.900  90.00  90.00  90.00  P 21 21 21   8\n'
                    'ATOM      1  AL  MOL     1       1.000   2.000   3.000  1.00  0.00\n')
        return parse.PDBFile('x.pdb')
    if kind == 'spline':
        x = np.linspace(0, 3, 9)
        return num.Spline(x, np.sin(x))
    if kind == 'polyfit':
        x = np.linspace(0, 3, 9)
        return num.PolyFit1D(x, np.sin(x), deg=4)
    if kind == 'harmonic':
        return thermo.HarmonicThermo(np.linspace(10, 500, 40), np.linspace(0, 1, 40) ** 2, T=np.linspace(5, 300, 5))

KINDS = ['struct', 'struct-full', 'struct-lazy', 'struct-empty', 'traj', 'traj-full', 'traj-lazy', 'parser']

def attrs(o):
    return {k: freeze(v) for k, v in o.__dict__.items()}

def gen_dump(tier):
    for k, sub, way, twice in itertools.product(KINDS, ('o.pk', 'new/sub/o.pk'), ('read_pickle', 'load', 'pickle', 'cpickle_load'), (0, 1)):
        yield [k, sub, way, twice]

@chk.group(gen_dump)
def dumps(case, ctx):
    kind, sub, way, twice = case
    d = ctx.tmp()
    os.chdir(d)
    o = mkobj(kind)
    if kind == 'parser':
        o.get_struct() if twice else None
    a = attrs(o)
    fn = os.path.join(d, sub)
    if twice:
        crys.Structure(symbols=['H'] * 50, cell=np.eye(3), coords=np.zeros((50, 3))).dump(fn)   # longer file
    o.dump(fn)
    check(attrs(o) == a, 'dump() changed the object')
    ctx.count('states'); ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    if way == 'read_pickle':
        p = io.read_pickle(fn)
    elif way == 'cpickle_load':
        p = common.cpickle_load(fn)
    elif way == 'pickle':
        with open(fn, 'rb') as f:
            p = pickle.load(f)
    else:
        p = mkobj('traj-full' if kind.startswith('traj') else 'struct-full') if twice and kind != 'parser' else type(o)()
        p.load(fn)
    check(type(p) is type(o), lambda: 'type %s' % type(p))
    b = attrs(p)
    check(set(a) <= set(b), lambda: 'attributes lost: %s' % sorted(set(a) - set(b)))
    for k in a:
        check(a[k] == b[k], lambda: 'attribute %s differs after loading: %s / %s' % (k, short(repr(a[k]), 200), short(repr(b[k]), 200)))
    if kind.startswith('traj') or kind.startswith('struct') and kind != 'struct-empty':
        o.set_all(); p.set_all()
        for k in o.attr_lst:
            check(freeze(getattr(o, k)) == freeze(getattr(p, k)), lambda: 'attribute %s differs after loading and set_all()' % k)
    if sub == 'o.pk':
        check(not raises(lambda: o.dump('plain.pk')), 'dump into the current directory')
        check(raises(lambda: o.dump(os.path.join(d, 'missing', 'x.pk'), mkdir=False)), 'mkdir=False creates no directory')
        check(not os.path.exists(os.path.join(d, 'missing')), 'mkdir=False creates no directory')
