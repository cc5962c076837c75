"""P10: arguments stay unchanged; copies share nothing."""
import contextlib, io, itertools, os
import numpy as np
from mc import *
import co, catalogue
from pwtools import crys, num, mpl, common, signal, batch, sql, base

chk = Check('P10', level='exploration',
    rule='every call of a catalogue of library calls (all parts, documented option variants) x memory layout of every array argument (C, Fortran, strided view of a larger array, reversed view, read-only) and x integer/float lists where accepted; arguments (incl. the arrays behind views and the attributes of structures) are compared bytewise before and after; every attribute of every copyable object is modified through every kind of mutation in both directions; every pair of calls of methods on one object. Non-trivial: at least one mutable argument.',
    assumptions=['in-place work is documented only for copy=False variants, min_image_convention, sliceput and Structure.compress',
                 'objects remember computed attributes (lazy attributes may be filled in)'])

def c_(a):
    return np.array(a, order='C', copy=True)
def f_(a):
    return np.array(a, order='F', copy=True)
BASES = []
def view(a):
    """every second element of a larger array"""
    big = np.full(tuple(2 * n + 1 for n in a.shape), 77, dtype=a.dtype)
    v = big[tuple(slice(1, None, 2) for _ in a.shape)][tuple(slice(0, n) for n in a.shape)]
    v[...] = a
    BASES.append(big)
    return v
def rev(a):
    big = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)], copy=True)
    BASES.append(big)
    return big[tuple(slice(None, None, -1) for _ in a.shape)]
def ro(a):
    b = np.array(a, copy=True)
    b.flags.writeable = False
    return b
LAY = dict(C=c_, F=f_, view=view, rev=rev, ro=ro)

def gen_calls(tier):
    for n in catalogue.OPS:
        for lay in LAY:
            yield [n, lay]

def guard(fn, a, k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)

def objstate(x):
    return catalogue.canon(x)

@chk.group(gen_calls)
def arguments(case, ctx):
    name, lay = case
    d = ctx.tmp()
    os.chdir(d)
    del BASES[:]
    made = catalogue.calls(name, LAY[lay], d)
    some = False
    for i, (fn, args, kw, inp) in enumerate(made):
        if lay == 'ro' and inp:
            continue
        np.random.seed(1)
        keep = [(j, catalogue.canon(a)) for j, a in enumerate(args) if j not in inp] + [(j, catalogue.canon(a)) for j, a in kw.items()]
        some = some or any(isinstance(a, (list, dict, np.ndarray)) or hasattr(a, '__dict__') for a in list(args) + list(kw.values()))
        inb = [b for j in inp for b in bases_of(args[j])]
        kb = [(b, b.tobytes()) for b in BASES if not any(b is q for q in inb)]
        try:
            guard(fn, args, kw)
        except Violation:
            raise
        except Exception as e:
            if lay == 'ro':
                raise Violation('%s call %i with read-only arrays: %s: %s' % (name, i, type(e).__name__, e))
            raise
        for j, b in keep:
            now = catalogue.canon(args[j] if isinstance(j, int) else kw[j])
            check(now == b, '%s call %i: argument %r changed%s' % (name, i, j, where(b, now)))
        for b, t in kb:
            check(b.tobytes() == t, '%s call %i: memory behind a view changed' % (name, i))
        ctx.eval(1)
    if not some:
        ctx.trivial()

def bases_of(x):
    out = []
    for b in BASES:
        arrs = [x] if isinstance(x, np.ndarray) else [v for v in vars(x).values() if isinstance(v, np.ndarray)] if hasattr(x, '__dict__') else []
        if any(np.shares_memory(b, a) for a in arrs):
            out.append(b)
    return out

def where(a, b, path=''):
    if type(a) == tuple and type(b) == tuple and len(a) == len(b) and a and a[0] not in ('nd',):
        for x, y in zip(a, b):
            if x != y:
                return where(x, y, path + '/' + (x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else ''))
    return ' at %s' % path if path else ''

# --- copy=True results are independent of the argument ----------------------------
IND = {
    'pbc_wrap_coords': lambda a: crys.pbc_wrap_coords(a), 'pbc_wrap_nomask': lambda a: crys.pbc_wrap_coords(a, mask=[False] * 3),
    'coord_trans': lambda a: crys.coord_trans(a, old=np.identity(3), new=np.identity(3)), 'min_image': lambda a: crys.min_image_convention(a, copy=True),
    'fix_eps': lambda a: common.fix_eps(a), 'scale': lambda a: signal.scale(a), 'slicetake': lambda a: num.slicetake(a, slice(0, 2), axis=0, copy=True),
    'slicetake_int': lambda a: num.slicetake(a, 0, axis=0, copy=True), 'slicetake_all': lambda a: num.slicetake(a, slice(None), axis=0, copy=True),
    'slicetake_tuple': lambda a: num.slicetake(a, (slice(None), slice(0, 1)), copy=True)}
def gen_ind(tier):
    for k in IND:
        for lay in ('C', 'F', 'view'):
            for dt in ('f', 'i', 'f4'):
                yield [k, lay, dt]

@chk.group(gen_ind)
def results(case, ctx):
    k, lay, dt = case
    if dt == 'i' and k in ('min_image', 'scale', 'pbc_wrap_coords', 'pbc_wrap_nomask'):
        dt = 'f'
    a = LAY[lay](np.array(co.gen_arr((4, 3), 3, -2, 2), dtype=float).astype(dict(f=float, i=int, f4=np.float32)[dt]))
    b = a.tobytes()
    r = IND[k](a)
    check(not np.shares_memory(r, a), '%s returns the memory of its argument' % k)
    r[...] = 5
    check(a.tobytes() == b, '%s: changing the result changes the argument' % k)

# --- copies ------------------------------------------------------------------------
def st(full=True):
    s = catalogue.struct(velocity=catalogue.A((4, 3), 9), ekin=1.5)
    return s
def tr():
    return catalogue.traj(vc=True, velocity=catalogue.A((5, 4, 3), 9))
def lazy_s():
    s = crys.Structure(set_all_auto=False, coords_frac=catalogue.frac(), cell=catalogue.CELL.copy(), symbols=list(catalogue.SY), forces=catalogue.A((4, 3), 1), units={'length': 2.0})
    return s
def d2():
    return mpl.Data2D(x=catalogue.X(3), y=catalogue.X(2), zz=catalogue.A(6, 1))
def view_struct():
    t = tr()
    return t[2]
def fake():
    return crys.FakeASEAtoms(scaled_positions=catalogue.frac(), cell=catalogue.CELL.copy(), symbols=list(catalogue.SY))
def sliced():
    return tr()[1:4]
OBJ = {'Structure': (st, lambda o: o.copy()), 'Trajectory': (tr, lambda o: o.copy()), 'LazyStructure': (lazy_s, lambda o: o.copy()), 'Data2D': (d2, lambda o: o.copy()), 'FromTraj': (view_struct, lambda o: o.copy()),
       'compress': (tr, lambda o: crys.compress(o, forget=[])), 'pbc_wrap': (tr, lambda o: crys.pbc_wrap(o)), 'center': (st, lambda o: crys.center_on_atom(o, idx=0)), 
       'get_traj': (st, lambda o: o.get_traj(2)), 'get_traj1': (lazy_s, lambda o: crys.struct2traj(o)), 'SlicedTraj': (sliced, lambda o: o.copy()), 'Fake': (fake, lambda o: o.copy()), 'pickle': (tr, None)}

def state(o):
    return {k: catalogue.canon(v) for k, v in vars(o).items()}

def leaves(v, path=()):
    """(mutator, description) for every mutable piece of a value"""
    if isinstance(v, np.ndarray) and v.size and v.dtype != object and v.ndim:
        def m(v=v):
            if not v.flags.writeable:
                return False
            v.ravel()[...] if False else None
            v[...] = v[...] * 0 + 9
            return True
        yield m, path + ('array',)
    elif isinstance(v, list):
        yield (lambda v=v: (v.append('zz'), True)[1]), path + ('append',)
        for i, e in enumerate(v):
            yield from leaves(e, path + (i,))
        if v:
            yield (lambda v=v: (v.__setitem__(0, 'changed'), True)[1]), path + ('set 0',)
    elif isinstance(v, dict):
        yield (lambda v=v: (v.__setitem__('zz', 1), True)[1]), path + ('set key',)
        for kk, e in list(v.items()):
            yield from leaves(e, path + (kk,))
            yield (lambda v=v, kk=kk: (v.__setitem__(kk, 'changed'), True)[1]), path + ('set %s' % kk,)

SKIP = ('attr_lst',)
def gen_copy(tier):
    for k in OBJ:
        for way in (0, 1):
            for warm in (0, 1):
                yield [k, way, warm]

@chk.group(gen_copy)
def copies(case, ctx):
    k, way, warm = case
    make, cp = OBJ[k]
    if cp is None:
        import pickle
        cp = lambda o: pickle.loads(pickle.dumps(o))
    def pair():
        o = make()
        if warm and hasattr(o, 'set_all'):
            o.set_all()
        return o, cp(o)
    o, c = pair()
    check(c is not o, 'copy returns the object')
    todo = [(n, p) for n, v in vars((o, c)[way]).items() for _, p in leaves(v)]
    for n, p in todo:
        o, c = pair()
        ch, other = (o, c) if way == 0 else (c, o)
        before = state(other)
        done = False
        for m, q in leaves(vars(ch)[n]):
            if q == p:
                done = m()
                break
        if not done:
            continue
        ctx.eval(1)
        after = state(other)
        for a in before:
            check(after[a] == before[a], 'changing %s%r of the %s changes %s of the other one' % (n, p, ('original', 'copy')[way], a))
    # rebinding attributes
    o, c = pair()
    ch, other = (o, c) if way == 0 else (c, o)
    before = state(other)
    for n in list(vars(ch)):
        setattr(ch, n, None)
    check(state(other) == before, 'replacing attributes changes the other object')

# --- copies of copies and lazily filled attributes: all sequences of actions -------------
ACTS = ['copy', 'set_all', 'set', 'inplace', 'compress', 'units']
def gen_hist(tier):
    for kind in ('Structure', 'Trajectory', 'LazyStructure'):
        for s in seqs(ACTS, 3 if tier == 'quick' else 4, 1):
            yield [kind, list(s)]

@chk.group(gen_hist)
def histories(case, ctx):
    kind, acts = case
    o = OBJ[kind][0]()
    ref = state(o)
    c = o.copy()
    for i, a in enumerate(acts):
        if a == 'copy':
            c2 = c.copy()
            check(all(catalogue.canon(getattr(c2, n)) == catalogue.canon(getattr(c, n)) for n in c.attr_lst), 'copy differs from its source')
            old, st_old = c, state(c)
            c = c2
        elif a == 'set_all':
            c.set_all()
        elif a == 'set':
            c.forces = None
            c.symbols[0] = 'H'
        elif a == 'inplace':
            for n, v in vars(c).items():
                if isinstance(v, np.ndarray) and v.ndim:
                    v[...] = v * 0 + i
        elif a == 'compress':
            c.compress(forget=['stress', 'cryst_const'])
        else:
            c.units['length'] = 99.0
        if 'copy' in acts[:i] and a != 'copy' and acts[:i][-1] == 'copy':
            check(state(old) == st_old, '%s on a copy of a copy changes its source' % a)
        check(state(o) == ref, '%s on a copy (after %r) changes the original' % (a, acts[:i]))
        ctx.eval(1)

# --- list valued defaults and caller's lists ----------------------------------------
def gen_defaults(tier):
    yield from range(6)

@chk.group(gen_defaults)
def defaults(case, ctx):
    import inspect, pwtools
    mods = [crys, num, mpl, common, signal, batch, sql, base] + [__import__('pwtools.' + m, fromlist=['x']) for m in
            ('pydos', 'thermo', 'mttk', 'eos', 'kpath', 'pwscf', 'dcd', 'io', 'parse', 'arrayio', 'comb', 'symmetry', 'random', 'rbf.core', 'rbf.hyperopt', 'calculators')]
    def snap():
        out = {}
        for m in mods:
            for n, f in vars(m).items():
                for q, g in ([(n, f)] if inspect.isfunction(f) else [(n + '.' + a, b) for a, b in vars(f).items() if inspect.isfunction(b)] if inspect.isclass(f) else []):
                    dv = list(g.__defaults__ or ()) + list((g.__kwdefaults__ or {}).values())
                    mut = [x for x in dv if isinstance(x, (list, dict, set, np.ndarray))]
                    if mut:
                        out[m.__name__ + '.' + q] = catalogue.canon(mut)
                if inspect.isclass(f) and f.__module__.startswith('pwtools'):
                    for a, b in vars(f).items():
                        if isinstance(b, (list, dict, set, np.ndarray)):
                            out['%s.%s.%s' % (m.__name__, n, a)] = catalogue.canon(b)
                elif isinstance(f, (dict, list, np.ndarray)) and not n.startswith('__'):
                    out[m.__name__ + '.' + n] = catalogue.canon(f)
        return out
    before = snap()
    check(len(before) > 20, 'no defaults found')
    names = list(catalogue.OPS)
    for n in names[case::6]:
        d = ctx.tmp()
        os.chdir(d)
        for fn, a, k, inp in catalogue.calls(n, d=d):
            guard(fn, a, k)
        after = snap()
        for q in before:
            check(after.get(q) == before[q], '%s changes the default or module value %s' % (n, q))
        ctx.eval(1)

