"""P36: results depend on the values of arrays only, not on how they are stored."""
import contextlib, io, math, os, re
import numpy as np
from mc import *
import co, catalogue

chk = Check('P36', level='exploration',
    rule='every call of a catalogue of library calls x storage of every array argument (Fortran order, strided view of a larger array, reversed view, read-only, byte swapped copy excluded; all arrays at once and every single one alone); integer against float arrays of the same values. The result (numbers, text, written files) must equal that for fresh C ordered arrays up to rounding. Non-trivial: the call has at least one array argument.',
    assumptions=['rounding differences up to 1e-7 relative (1e-5 for iterative minimisation) between storage orders are accepted'])

def view(a):
    big = np.full(tuple(2 * n + 1 for n in a.shape), 77, dtype=a.dtype)
    v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    v[...] = a
    return v
def rev(a):
    big = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)], copy=True)
    return big[tuple(slice(None, None, -1) for _ in a.shape)]
def ro(a):
    b = np.array(a, copy=True)
    b.flags.writeable = False
    return b
def tview(a):
    """transposed memory with a gap"""
    big = np.full(a.shape[::-1] + (3,), 55, dtype=a.dtype)
    v = big[..., 1].T
    v[...] = a
    return v
C = lambda a: np.array(a, order='C', copy=True)
LAY = dict(F=lambda a: np.array(a, order='F', copy=True), view=view, rev=rev, ro=ro, tview=tview)

NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eEdD][-+]?\d+)?')

def same(a, b, rtol, path=''):
    if isinstance(a, bytes):
        a = a.decode('latin1')
    if isinstance(b, bytes):
        b = b.decode('latin1')
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return
        x, y = NUM.findall(a), NUM.findall(b)
        check(NUM.sub('#', a).split() == NUM.sub('#', b).split(), 'text differs%s' % path)
        assert_close([float(q.replace('d', 'e').replace('D', 'e')) for q in x], [float(q.replace('d', 'e').replace('D', 'e')) for q in y], 'numbers in text%s' % path, rtol, 1e-7)
        return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        check(a.shape == b.shape, 'shape %r instead of %r%s' % (a.shape, b.shape, path))
        if a.dtype == object or b.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                same(x, y, rtol, path + '[%i]' % i)
        elif a.dtype.kind in 'fciub' and b.dtype.kind in 'fciub':
            n = np.isnan(a) if a.dtype.kind in 'fc' else np.zeros(a.shape, bool)
            n2 = np.isnan(b) if b.dtype.kind in 'fc' else np.zeros(b.shape, bool)
            check((n == n2).all(), 'nan at other places%s' % path)
            a, b = a[~n], b[~n]
            s = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0))) if b.size else 1.0
            assert_close(np.where(np.isfinite(a), a, 9e99), np.where(np.isfinite(b), b, 9e99), 'values%s' % path, rtol, rtol * s)
        else:
            check((a == b).all(), 'values%s' % path)
        return
    if isinstance(a, (float, int, complex, np.number)) and isinstance(b, (float, int, complex, np.number)):
        same(np.atleast_1d(a), np.atleast_1d(b), rtol, path)
        return
    check(type(a).__name__ == type(b).__name__, 'type %s instead of %s%s' % (type(a).__name__, type(b).__name__, path))
    if isinstance(a, dict):
        check(list(map(repr, a)) == list(map(repr, b)), 'keys%s' % path)
        for k in a:
            same(a[k], b[k], rtol, path + '/%s' % k)
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), 'length%s' % path)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, rtol, path + '[%i]' % i)
    elif hasattr(a, '__dict__') and not callable(a):
        check(sorted(vars(a)) == sorted(vars(b)), 'attributes%s' % path)
        if len(path) < 200:
            for k in vars(a):
                same(vars(a)[k], vars(b)[k], rtol, path + '.' + k)

def run(fn, a, k):
    np.random.seed(3)
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)

LOOSE = {'num.Fit1D', 'num.poly', 'num.simple', 'thermo.Gibbs', 'eos.EosFit', 'rbf.fit_opt', 'rbf.Rbf', 'rbf.FitError', 'num.Interpol2D', 'signal.find_peaks'}

def count(name):
    n = [0]
    def L(a):
        n[0] += 1
        return a
    catalogue.calls(name, L, '/nonexistent') if name not in NEEDDIR else None
    return n[0]
NEEDDIR = {'dcd'}
def applicable():
    return [n for n in catalogue.OPS if n not in NEEDDIR and not n.startswith('parse.') and count(n)]

def one(name, L, ctx):
    d1, d2 = ctx.tmp(), ctx.tmp()
    np.random.seed(0)
    os.chdir(d1)
    want = []
    ref = catalogue.calls(name, C, d1)
    got = catalogue.calls(name, L, d2)
    rtol = 1e-4 if name in LOOSE else 1e-7
    for i, ((f0, a0, k0, _), (f1, a1, k1, inp)) in enumerate(zip(ref, got)):
        os.chdir(d1)
        w = run(f0, a0, k0)
        os.chdir(d2)
        if inp and any(isinstance(a1[j], np.ndarray) and not a1[j].flags.writeable or hasattr(a1[j], '__dict__') and any(isinstance(v, np.ndarray) and not v.flags.writeable for v in vars(a1[j]).values()) for j in inp):
            continue
        try:
            g = run(f1, a1, k1)
        except Exception as e:
            raise Violation('call %i of %s fails: %s: %s' % (i, name, type(e).__name__, e))
        try:
            same(g, w, rtol)
            for j in inp:
                same(a1[j], a0[j], rtol, ' (argument changed in place)')
        except Violation as e:
            raise Violation('call %i of %s: %s' % (i, name, e))
        ctx.eval(1)

def gen_all(tier):
    for n in applicable():
        for lay in LAY:
            yield [n, lay]

@chk.group(gen_all)
def layouts(case, ctx):
    name, lay = case
    one(name, LAY[lay], ctx)

def gen_single(tier):
    for n in applicable():
        m = count(n)
        if m > (40 if tier == 'quick' else 400):
            continue
        for lay in ('F', 'view', 'rev') if tier == 'quick' else LAY:
            for i in range(m):
                yield [n, lay, i]

@chk.group(gen_single)
def one_array(case, ctx):
    name, lay, i = case
    c = [0]
    def L(a):
        c[0] += 1
        return LAY[lay](a) if c[0] == i + 1 else C(a)
    one(name, L, ctx)

# --- whole numbers stored as integers or as floats ----------------------------------
def fint(a):
    return np.rint(a * (10 if np.abs(a).max(initial=0) < 20 else 1))
def asint(*types):
    def L(a):
        if a.dtype.kind != 'f':
            return C(a)
        b = fint(a)
        for t in types:       # the smallest type of the list which holds the values
            if np.abs(b).max(initial=0) <= np.iinfo(t).max:
                return b.astype(t)
        return b
    return L
INTS = dict(i8=asint(np.int64), i4=asint(np.int32), i2=asint(np.int16, np.int32),
    b4=lambda a: a if a.dtype.kind != 'f' else big(a).astype(np.int32))      # squares do not fit
def big(a):
    return np.rint(fint(a) * min(1e5, 2e9 / max(1, np.abs(fint(a)).max(initial=0))))
FL = lambda a: fint(a) if a.dtype.kind == 'f' else C(a)
FLB = lambda a: big(a) if a.dtype.kind == 'f' else C(a)
BIGOPS = ('num', 'opt.num', 'signal', 'opt.signal', 'pydos', 'opt.pydos', 'common', 'comb', 'arrayio')

def gen_int(tier):
    for n in applicable():
        for t in INTS:
            if t == 'b4' and not n.startswith(BIGOPS):
                continue
            yield [n, t, None]
            for i in range(min(count(n), 40 if tier == 'quick' else 400)):
                yield [n, t, i]

NOINT = {}
@chk.group(gen_int)
def integers(case, ctx):
    name, t, pick = case
    d1, d2 = ctx.tmp(), ctx.tmp()
    flt = FLB if t == 'b4' else FL
    def mk(fn):
        c = [0]
        def L(a):
            c[0] += 1
            return (fn if pick is None or c[0] == pick + 1 else flt)(a)
        return L
    try:
        ref = catalogue.calls(name, mk(flt), d1)
    except Exception:
        ctx.trivial()
        return
    got = catalogue.calls(name, mk(INTS[t]), d2)
    n = 0
    for i, ((f0, a0, k0, inp), (f1, a1, k1, _)) in enumerate(zip(ref, got)):
        if inp:
            continue       # in place work on integers cannot give fractions
        os.chdir(d1)
        try:
            with np.errstate(all='ignore'):
                w = run(f0, a0, k0)
        except Exception:
            continue       # not meaningful for these numbers
        os.chdir(d2)
        try:
            with np.errstate(all='ignore'):
                g = run(f1, a1, k1)
        except Exception as e:
            raise Violation('call %i of %s fails for integers: %s: %s' % (i, name, type(e).__name__, e))
        try:
            same(g, w, 1e-4 if name in LOOSE else 1e-7)
        except Violation as e:
            raise Violation('call %i of %s with integers: %s' % (i, name, e))
        n += 1
        ctx.eval(1)
    if not n:
        ctx.trivial()

# --- arguments documented as sequence / array_like: list, tuple, array -------------------
from pwtools import crys, num, signal, pwscf, batch, sql, common, comb, thermo, kpath, parse, eos, random as prandom
from pwtools.rbf import hyperopt, Rbf
SYM, M = catalogue.SY, np.array
A, S, T = catalogue.A, catalogue.struct, catalogue.traj
def rnd(**k):
    r = prandom.RandomStructure(['Si', 'O'], **k)
    np.random.seed(5)
    return r.get_random_struct().cryst_const
def tables(db, values, header):
    d = sql.SQLiteDB(':memory:', table='t')
    d.create_table([('a', 'INTEGER')])
    d.add_columns(header)
    d.fill_column('b', values)
    d.attach_column('c', values, sqltype='FLOAT')
    return [list(map(tuple, d.execute('select a,b,c from t'))), d.get_header()]
SEQ = {
    'str_arr': (common.str_arr, [[1., 2.5, 3e-20]]), 'size': (lambda s: crys.grid_in_cell(catalogue.CELL, size=s), [[2, 3, 4]]), 'mask': (lambda m: crys.pbc_wrap_coords(A((4, 3), 1, -3, 3), mask=m), [[True, False, True], [False, False, True]]),
    'nn_sym': (lambda s: [crys.nearest_neighbors_from_dists(crys.distances(S()), s, idx=0, num=2)], [SYM]), 'nn_skip': (lambda s: [crys.nearest_neighbors(S(), idx=0, num=1, skip=s)], [['N'], ['N', 'H']]),
    'struct_symbols': (lambda s: (lambda q: [q.symbols_unique, q.natoms, q.mass, q.order, q.typat, q.znucl])(crys.Structure(coords_frac=catalogue.frac(), cell=catalogue.CELL, symbols=s)), [SYM]),
    'concatenate': (lambda s: crys.concatenate(s).coords, [[S(), S(seed=1)], [T(), S()]]), 'mix': (lambda a: crys.mix(S(), S(seed=1), a).coords, [[0.0, .3, 1.0], [0, 1]]), 'align': (lambda i: crys.align_cart(S(coords_frac=M([[0., 0, 0], [.5, 0, 0], [0, .5, 0], [.2, .3, .4]]), cell=np.identity(3) * 4), indices=i).coords, [[0, 1, 2]]),
    'align_traj': (lambda i: crys.align_cart(T(coords_frac=M([[[0., 0, 0], [.5, 0, 0], [0, .5, 0], [.2, .3, .4]]] * 5), cell=np.identity(3) * 4), indices=i).coords, [[1, 0, 1, 2]]),
    'cc2cell': (crys.cc2cell, [[3., 4, 5, 80, 90, 100], [3, 4, 5, 80, 90, 100]]), 'volume_cc': (crys.volume_cc, [[3., 4, 5, 80, 90, 100]]), 'cc2celldm': (crys.cc2celldm, [[3., 4, 5, 80, 90, 100]]), 'celldm2cc': (crys.celldm2cc, [[3., 1.1, 1.2, .1, .2, .3]]),
    'xab': (lambda x: num.Spline(catalogue.X(), catalogue.Y()).get_min(xab=x), [[1.0, 3.5]]), 'inv_xab': (lambda x: num.Spline(catalogue.X(), catalogue.Y()).invsplev(1.0, xab=x), [[2.3, 3.9]]), 'x0': (lambda x: num.PolyFit(A((25, 2), 1), (A((25, 2), 1) ** 2).sum(1), 2).get_min(x0=x), [[.1, .2]]),
    'atpos': (lambda s: pwscf.atpos_str(s, A((4, 3), 1)), [SYM]), 'atpos_fast': (lambda s: pwscf.atpos_str_fast(s, A((4, 3), 1)), [SYM]), 'atspec': (lambda s: pwscf.atspec_str(s, s, s), [['Al', 'N']]), 'atspec_m': (lambda m: pwscf.atspec_str(['A', 'B'], m, ['a', 'b']), [[1.5, 2.5]]),
    'kpoints': (pwscf.kpoints_str_pwin, [[2, 3, 4]]), 'kshift': (lambda s: pwscf.kpoints_str_pwin([2, 3, 4], shift=s), [[1, 0, 1]]), 'kfull': (pwscf.kpoints_str_pwin_full, [[2, 3, 4], [1, 1, 1]]), 'kfshift': (lambda s: pwscf.kpoints_str_pwin_full([1, 1, 1], shift=s, gamma=False), [[0, 0, 1]]), 'kstr': (pwscf.kpoints_str, [[2, 3, 4]]),
    'ibrav': (lambda c: [pwscf.ibrav2cell(i, c) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)], [[5., 1.1, 1.2, .1, .2, .3]]), 'random': (lambda r: rnd(angle_range=r), [[80., 100.]]), 'random2': (lambda r: rnd(vol_range_scale=r), [[.8, 1.4]]), 'random3': (lambda r: rnd(length_range_scale=r), [[.8, 1.4]]),
    'rsyms': (lambda s: (prandom.RandomStructure(s).dij_min), [['Si', 'O']]),
    'peaks_y': (signal.find_peaks, [[0., 1, 0, 2, 0, 3, 1, 0], [0, 1, 0, 2, 0, 3, 1, 0]]), 'peaks_x': (lambda x: signal.find_peaks(M([0., .5, 1, .5, 0, 1, 2, 1, 0, .1, .2, .1, 0]), x=x), [[float(i) for i in range(13)], list(range(13))]), 'scale': (signal.scale, [[1., 3., 2.], [1, 3, 2]]),
    'cutoff': (lambda c: signal.FIRFilter(cutoff=c, nyq=1.0, ntaps=9, mode='bandpass').taps, [[.2, .5]]), 'phdos': (lambda p: thermo.Gibbs(**dict(catalogue.nowarn(catalogue.gibbs(lambda a: a)), phdos=p)).calc_F()['/ax0/T/F'], [[catalogue.phdos(i) for i in range(7)]]),
    'expansion': (lambda t: thermo.expansion(t, 2e-6, 300.), [[10., 100., 500.], [10, 100]]), 'debye': (thermo.debye_func, [[.5, 1., 3.], [1, 2]]), 'einstein': (thermo.einstein_func, [[.5, 1., 3.], [1, 2]]), 'conv_xx': (lambda x: batch.conv_table(x, [3., 2., 1.]), [['a', 'b', 'c'], [1, 2, 3]]), 'conv_yy': (lambda y: batch.conv_table([1, 2, 3], y), [[3., 2., 1.], [[3., 2., 1.], [5., 6, 7]]]),
    'sqlcol': (lambda l: [(e.key, e.sqlval, e.sqltype) for e in sql.sql_column('k', l)], [[1.5, 2.5], ['a', 'b']]), 'sqlheader': (lambda h: [[(e.key, e.sqlval) for e in r] for r in sql.sql_matrix([[1, 'a']], header=h)], [[('x', 'INTEGER'), ('y', 'TEXT')]]), 'sqlnames': (lambda h: [[(e.key, e.sqlval) for e in r] for r in sql.sql_matrix([[1, 'a']], colnames=h)], [['x', 'y']]),
    'sqlvals': (lambda v: tables(None, v, [('b', 'FLOAT')]), [[1.5, 2.5, 3.5]]), 'sqladd': (lambda h: tables(None, [1., 2.], h), [[('b', 'FLOAT'), ('d', 'TEXT')]]), 'pop': (lambda i: common.pop_from_list([1, 2, 3], i), [[2], [1, 3]]), 'seq2str': (common.seq2str, [[1, 2, 3]]),
    'rbfparams': (lambda p: hyperopt.FitError(catalogue.P2(), catalogue.V2(), cv=None)(p), [[1.0], [1.0, 1e-6]]), 'axis_lens': (parse.axis_lens, [[np.zeros((2, 3)), np.zeros((4, 3))]]), 'psyms': (lambda s: kpath.SpecialPointsPath(ks=A((2, 3), 1), ks_frac=A((2, 3), 1), symbols=s).path_norm, [['A', 'B']]), 'attrs': (lambda l: (lambda s: (s.set_attr_lst(l), s.init_attr_lst(), s.check_set_attr_lst(l))[1:])(S()), [['coords', 'cell']]),
    'nested': (lambda l: list(map(list, comb.nested_loops(l))), [[[1, 2], [3, 4]]]), 'templates': (lambda t: (lambda c: sorted(x.basename for x in c.templates))(batch.Calculation(templates=t, machine=batch.Machine(hostname='h', template=batch.FileTemplate(basename='j', txt='')))), [[batch.FileTemplate(basename='a', txt='')]]),
    'machines': (lambda m: [x.hostname for x in batch.ParameterStudy(machines=m, calc_root='.').machines], [[batch.Machine(hostname='h'), batch.Machine(hostname='g')]]),
}
def forms(x):
    tup = lambda v: tuple(v)
    yield 'list', list(x)
    yield 'tuple', tup(x)
    nested = any(isinstance(e, (list, tuple, np.ndarray)) for e in x)
    if not nested and all(isinstance(e, (int, float, str)) for e in x):
        yield 'array', np.array(x)
        if all(isinstance(e, (int, float)) and not isinstance(e, bool) for e in x):
            yield 'float array', np.array(x, dtype=float)
    elif all(isinstance(e, (list, np.ndarray)) for e in x):
        yield 'tuple of tuples', tuple(tuple(e) if isinstance(e, list) else e for e in x)
NOARR = {'sqlcol', 'sqlvals', 'sqlnames', 'attrs', 'axis_lens', 'seq2str', 'struct_symbols', 'nn_sym', 'pop', 'rsyms', 'atspec', 'nn_skip'}    # elements of an array are numpy scalars, not database / text values
NOFLOAT = {'size', 'kpoints', 'kfull', 'kstr', 'kshift', 'kfshift', 'align', 'align_traj', 'conv_xx', 'mask'}

def gen_seq(tier):
    for k in SEQ:
        for i in range(len(SEQ[k][1])):
            yield [k, i]

@chk.group(gen_seq)
def sequences(case, ctx):
    k, i = case
    fn, data = SEQ[k]
    os.chdir(ctx.tmp())
    want = None
    errs = []
    for what, v in forms(data[i]):
        if 'array' in what and k in NOARR or what == 'float array' and k in NOFLOAT:
            continue
        keep = catalogue.canon(v)
        try:
            r = fn(v)
        except Exception as e:
            errs.append('%s given as %s: %s: %s' % (k, what, type(e).__name__, e))
            continue
        if want is None:
            want = [what, r]
        else:
            try:
                same(r, want[1], 1e-7)
            except Violation as e:
                raise Violation('%s as %s and as %s: %s' % (k, what, want[0], e))
        check(catalogue.canon(v) == keep, '%s: argument changed' % k)
        ctx.eval(1)
    check(not errs, '; '.join(errs))
