"""P29: results do not depend on what was done before in the same process."""
import contextlib, hashlib, io, itertools, os, pickle, random as pyrandom, signal as sig
import warnings
import numpy as np
from mc import *
import co, catalogue
from pwtools import crys, num, mpl, common, batch, sql, base, parse, thermo, rbf, calculators, signal, eos, kpath
import matplotlib, multiprocessing.pool, ase, ase.calculators.calculator

chk = Check('P29', level='model_checking',
    rule='States are the operations done so far in a process: all histories of length two (thorough: also three over a representative of each part) over a catalogue of operations, each run in a forked process, results compared bytewise with those of the operation alone in a fresh process; process wide state (directory, environment, floating point and warning settings, plot settings) after every operation; all interleavings of creation and use of two objects of one class with different options. Non-trivial: two different operations.',
    assumptions=['the random generators are seeded before every operation', 'an import of a module is not an operation', 'operations which hand over to the operating system (backtick, system) only as used by the parsers'])

OPN = sorted(catalogue.OPS)

def run_op(name, d):
    """canonical result of one operation"""
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    out = []
    for i, (fn, a, k, inp) in enumerate(catalogue.calls(name, d=d)):
        np.random.seed(7)
        pyrandom.seed(7)
        try:
            with contextlib.redirect_stdout(io.StringIO()) as so:
                r = fn(*a, **k)
            out.append(canon(r, a, inp, d))
        except Exception as e:
            out.append(('exc', type(e).__name__))
    return out

def canon(r, a, inp, d):
    v = pickle.dumps((catalogue.canon(r), [catalogue.canon(a[j]) for j in inp]))
    return hashlib.sha1(v.replace(d.encode(), b'DIR')).hexdigest()

def glob():
    return dict(cwd=os.getcwd(), env=sorted(os.environ.items()), err=sorted(np.geterr().items()), sig=[sig.getsignal(s) for s in (sig.SIGINT, sig.SIGPIPE, sig.SIGTERM)],
                rc={k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith('backend')}, po={k: repr(v) for k, v in np.get_printoptions().items()}, umask=umask(), locale=__import__('locale').setlocale(0))
def umask():
    m = os.umask(0); os.umask(m)
    return m

def forked(fn):
    """run fn in a forked child, return its (picklable) value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            warnings.simplefilter('ignore')
            data = pickle.dumps(('ok', fn()))
        except BaseException as e:
            import traceback
            data = pickle.dumps(('err', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc(limit=-3))))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('process died')
    k, v = pickle.loads(data)
    if k == 'err':
        raise RuntimeError(v)
    return v

FRESH = {}
def fresh(name, base):
    if name not in FRESH:
        d = os.path.join(base, 'w')
        FRESH[name] = forked(lambda: run_op(name, d))
        clean(d)
    return FRESH[name]

def clean(d):
    import shutil
    assert d.startswith(('/tmp/', '/dev/shm/', '/var/tmp/')) or 'verif-' in d, d
    shutil.rmtree(d, ignore_errors=True)

# representatives for the thorough triples
def gen_single(tier):
    for n in OPN:
        yield [n]

@chk.group(gen_single)
def process_state(case, ctx):
    """process wide settings are as before"""
    name, = case
    d = ctx.tmp()
    def run():
        w = os.path.join(d, 'x')
        os.makedirs(w)
        os.chdir(w)
        before = glob()
        run_op(name, w)
        after = glob()
        return [(k, str(before[k])[:200], str(after[k])[:200]) for k in before if before[k] != after[k]]
    diff = forked(run)
    check(not diff, '%s changes the process: %r' % (name, diff))
    a, b = fresh(name, d), forked(lambda: run_op(name, os.path.join(d, 'w')))
    check(a == b, '%s gives different results in two fresh processes' % name)
    check(all(not (isinstance(x, tuple) and x[0] == 'exc') for x in a), '%s fails: %r' % (name, a))
    ctx.count('states', 1); ctx.count('transitions', 1); ctx.count('traces_validated_against_impl', 1)

CH = 12
def gen_pairs(tier):
    for n in OPN:
        for k in range(0, len(OPN), CH):
            yield [[n], OPN[k:k + CH]]
    if tier != 'quick':
        rep = REP
        for a, b in itertools.product(rep, repeat=2):
            if a != b:
                for k in range(0, len(rep), 11):
                    yield [[a, b], rep[k:k + 11]]
REP = [n for n in OPN if n in ('crys.scell', 'crys.rpdf', 'crys.compress', 'crys.Structure', 'crys.Trajectory', 'crys.smooth', 'num.Fit1D', 'num.poly', 'num.Interpol2D', 'signal.FIR', 'signal.smooth', 'pydos.fvacf', 'pydos.pdos', 'thermo.Harmonic', 'thermo.Gibbs', 'eos.EosFit', 'pwscf.str', 'common.template',
       'sql.db', 'batch.study', 'batch.calc', 'batch.calc_default', 'io.write', 'io.h5', 'arrayio', 'parse.0.pw_scf.units', 'parse.3.pw_md', 'parse.5.cpmd_md.units', 'parse.9.cp2k_md', 'parse.10.lammps', 'dcd', 'rbf.Rbf', 'rbf.fit_opt')]

@chk.group(gen_pairs)
def pairs(case, ctx):
    first, seconds = case
    d = ctx.tmp()
    want = {n: fresh(n, d) for n in seconds}
    def run():
        for i, n in enumerate(first):
            run_op(n, os.path.join(d, 'first%i' % i))
        res = {}
        for n in seconds:
            w = os.path.join(d, 'w')
            res[n] = forked(lambda: run_op(n, w))
            clean(w)
        return res
    res = forked(run)
    for n in seconds:
        bad = [i for i, (x, y) in enumerate(zip(res[n], want[n])) if x != y]
        check(res[n] == want[n], '%s gives another result after %r (calls %r)' % (n, first, bad))
        ctx.eval(1)
        ctx.count('transitions', 1)
    ctx.count('states', len(seconds))
    ctx.count('traces_validated_against_impl', len(seconds))

# --- the same operation many times, all in one process, in several orders ------------------
def gen_orders(tier):
    n = len(OPN)
    for s in range(0, n, 17 if tier == 'quick' else 1):
        yield [s, 1]
        yield [s, -1]
    for step in (7, 11):
        yield [0, step]

@chk.group(gen_orders)
def long_sessions(case, ctx):
    start, step = case
    n = len(OPN)
    while np.gcd(step, n) != 1 and abs(step) != 1:
        step += 1
    names = [OPN[(start + step * i) % n] for i in range(n)]
    d = ctx.tmp()
    want = {m: fresh(m, d) for m in names}
    def run():
        out = []
        for m in names:
            w = os.path.join(d, 'w')
            out.append(run_op(m, w))
            clean(w)
        return out
    res = forked(run)
    for i, (m, r) in enumerate(zip(names, res)):
        check(r == want[m], '%s differs as operation %i of a long session starting with %r' % (m, i, names[:3]))
        ctx.eval(1)
    ctx.count('states', n); ctx.count('transitions', n); ctx.count('traces_validated_against_impl', 1)

# --- two objects of one class with different options --------------------------------------
S_, T_ = catalogue.struct, catalogue.traj
def parser(k):
    def mk(o, d):
        sub = os.path.join(d, 'p%i%i' % (k, abs(hash(str(sorted(o.items())))) % 10 ** 6))
        os.makedirs(sub, exist_ok=True)
        cls, fn, raw, opt = catalogue.outgen.GEN[catalogue.USES[k][0]](sub, dict(catalogue.USES[k][1]))
        return getattr(parse, cls)(fn, **dict(opt, **o))
    return mk
def cont(p):
    obj = p.get_struct() if 'SCF' in type(p).__name__ else p.get_traj()
    return {a: getattr(obj, a) for a in obj.attr_lst if a not in ('spglib', 'ase_atoms', 'fake_ase_atoms')}, p.units if hasattr(p, 'units') else None
def gibbs(o, d):
    kw = catalogue.nowarn(catalogue.gibbs(lambda a: a))
    ff = o.pop('ff', None)
    g = thermo.Gibbs(**dict(kw, **o))
    if ff:
        g.set_fitfunc(*ff)
    return g
U1, U2 = dict(length=2.0, energy=3.0), dict(stress=5.0, time=7.0, length=.5, velocity=3.0, forces=2.0)
CLS = {
    'Structure': (lambda o, d: S_(**o), lambda s: (s.cell, s.coords, s.stress, s.forces, s.units, s.copy().coords), [{}, dict(units=U1), dict(units=U2), dict(symbols=['H'] * 4)]),
    'Trajectory': (lambda o, d: T_(**o), lambda s: (s.cell, s.coords, s.stress, s.velocity, s.timestep, s[1].coords, s.units), [{}, dict(units=U1), dict(units=U2), dict(n=3)]),
    'Gibbs': (lambda o, d: gibbs(dict(o), d), lambda g: g.calc_G(calc_all=True), [{}, dict(ff=('1d-G', lambda x, y: num.PolyFit1D(x, y, deg=3))), dict(ff=('C', lambda x, y: num.PolyFit1D(x, y, deg=4))), dict(P=np.array([0., .5]))]),
    'Harmonic': (lambda o, d: thermo.HarmonicThermo(catalogue.phdos()[:, 0], catalogue.phdos()[:, 1], **dict(dict(T=np.array([10., 300.]), verbose=False), **o)), lambda h: (h.evib(), h.cv(), h.fvib(), h.svib()), [{}, dict(dosarea=3.0), dict(skipfreq=True, eps=100.), dict(T=np.array([5., 20, 30]))]),
    'Rbf': (lambda o, d: rbf.Rbf(catalogue.P2(), catalogue.V2(), **o), lambda r: (r.p, r.w, r(catalogue.P2()[:2])), [{}, dict(p=2.0), dict(r=1e-3), dict(rbf='gauss'), dict(rbf='multi', p='scipy')]),
    'FIR': (lambda o, d: signal.FIRFilter(**dict(dict(cutoff=.2, nyq=1.0, ntaps=9), **o)), lambda f: f(catalogue.A(40, 1)), [{}, dict(mode='highpass'), dict(ntaps=None, ripple=20, width=.3), dict(window='boxcar')]),
    'PolyFit1D': (lambda o, d: num.PolyFit1D(catalogue.X(), catalogue.Y(), **dict(dict(deg=3), **o)), lambda f: (f(2.0), f(catalogue.X(3)), f.get_min()), [{}, dict(deg=4), dict(scale=False), dict(deg=2, scale_vand=True)]),
    'Spline': (lambda o, d: num.Spline(catalogue.X(), catalogue.Y(), **o), lambda f: (f(2.0), f.get_min(), f.is_mono()), [{}, dict(k=5), dict(s=.1, checkeps=False), dict(k=2)]),
    'EosFit': (lambda o, d: eos.EosFit(catalogue.VOL, catalogue.ENE * o.get('f', 1) , **({'splpoints': o['n']} if 'n' in o else {})), lambda f: (f.params, f.get_min(), f.bulkmod(40.)), [{}, dict(f=2), dict(n=300)]),
    'Data2D': (lambda o, d: mpl.Data2D(**dict(dict(x=catalogue.X(3), y=catalogue.X(2), zz=catalogue.A(6, 1)), **o)), lambda o: catalogue.d2state(o), [{}, dict(zz=catalogue.A(6, 5)), dict(x=catalogue.X(3, 1, 9))]),
    'Path': (lambda o, d: kpath.SpecialPointsPath(**o), lambda s: (s.ks, s.ks_frac, s.symbols, s.path_norm), [dict(ks=catalogue.A((2, 3), 1), ks_frac=catalogue.A((2, 3), 2), symbols=['A', 'B']), dict(ks=catalogue.A((3, 3), 4), ks_frac=catalogue.A((3, 3), 2), symbols=['C', 'D', 'E'])]),
    'Machine': (lambda o, d: batch.Machine(**dict(dict(hostname='h'), **o)), lambda m: {k: (v.sqlval, v.sqltype) for k, v in m.get_sql_record().items()}, [{}, dict(hostname='h2', scratch='/s'), dict(home='/h', subcmd='bsub')]),
    'Calculation': (lambda o, d: batch.Calculation(**dict(dict(params=[sql.SQLEntry(key='FOO', sqlval=2)], calc_dir=os.path.join(d, 'c%i' % len(o))), **o)), lambda c: (c.write_input(), sorted(os.listdir(c.calc_dir)), sorted(c.get_sql_record()), len(c.templates)),
        [{}, dict(machine=batch.Machine(hostname='h', template=batch.FileTemplate(basename='job', txt='XXXFOO'))), dict(machine=batch.Machine(hostname='h', template=batch.FileTemplate(basename='job3', txt='XXXFOO')), params=[sql.SQLEntry(key='FOO', sqlval=3)]), ]),
    'FileTemplate': (lambda o, d: batch.FileTemplate(**dict(dict(basename='t', txt='XXXA XXXB'), **o)), lambda t: (t.keys, t.func('A') if hasattr(t, 'func') else None, t.txt), [{}, dict(keys=['A']), dict(txt='q', func=lambda x: '@' + x + '@')]),
    'Study': (lambda o, d: batch.ParameterStudy(**dict(dict(machines=[batch.Machine(hostname='h')], templates=[], params_lst=[], calc_root=d), **o)), lambda s: (s.study_name, s.db_name, s.db_table, len(s.params_lst), len(s.templates)), [{}, dict(db_name='q.db'), dict(params_lst=[[1]]), dict(templates=[1, 2], study_name='z')]),
    'Case': (lambda o, d: batch.Case(**o), lambda c: vars(c), [{}, dict(x=1), dict(y=[2])]),
    'FitError': (lambda o, d: rbf.hyperopt.FitError(catalogue.P2(), catalogue.V2(), **dict(dict(cv=dict(n_splits=3, n_repeats=1, random_state=1)), **o)), lambda f: (f([1.0]),), [{}, dict(cv=None), dict(rbf_kwds=dict(r=1e-3)), dict(rbf_kwds=dict(rbf='multi'))]),
    'SQLiteDB': (lambda o, d: mkdb(o, d), lambda db: (db.get_table(), db.get_header(), db.get_list1d('select a from %s' % db.get_table())), [dict(t='one', v=[1, 2]), dict(t='two', v=[3])]),
    'Vinet': (lambda o, d: eos.Vinet(), lambda v: (v.dct2lst({'e0': 1, 'v0': 2, 'b0': 3, 'b1': 4}), v.lst2dct([4, 3, 2, 1])), [{}, {'x': 1}]),
    'random': (lambda o, d: catalogue.prandom.RandomStructure(['Si', 'O'], **o), lambda r: (np.random.seed(3), vars(r.get_random_struct())['coords_frac'], r.vol_range, r.angle_range, r.length_range), [{}, dict(angle_range=[80., 100.]), dict(vol_scale=6), dict(vol_range_scale=[.5, 2.])]),
    'Interpol2D': (lambda o, d: num.Interpol2D(catalogue.A((25, 2), 1), (catalogue.A((25, 2), 1) ** 2).sum(1), **o), lambda i: i(catalogue.A((3, 2), 5, -.4, .4)), [{}, dict(what='rbf_gauss'), dict(what='ct'), dict(what='poly', deg=2), dict(what='rbf_inv_multi', p=2.0)]),
}
for k in (0, 2, 5, 8, 10):
    CLS['parser%i' % k] = (parser(k), cont, [{}, dict(units=U1), dict(units=U2)])
def mkdb(o, d):
    db = sql.SQLiteDB(os.path.join(d, o['t'] + '.db'), table=o['t'])
    if not db.has_table(o['t']):
        db.create_table([('a', 'INTEGER')])
        for v in o['v']:
            db.execute('insert into %s (a) values (?)' % o['t'], (v,))
        db.commit()
    return db

def interleavings():
    for perm in sorted(set(itertools.permutations('AABB'))):
        yield ''.join(perm)      # first occurrence creates, second one uses
def gen_inst(tier):
    for k in CLS:
        n = len(CLS[k][2])
        for i, j in itertools.product(range(n), repeat=2):
            if i != j:
                for il in interleavings():
                    yield [k, i, j, il]
                for il in ('AABAB', 'ABBAA', 'ABABA'):   # a repeated use
                    yield [k, i, j, il]

SOLO = {}
@chk.group(gen_inst)
def instances(case, ctx):
    k, i, j, il = case
    mk, use, confs = CLS[k]
    d = ctx.tmp()
    def h(x):
        return hashlib.sha1(pickle.dumps(catalogue.canon(x)).replace(d.encode(), b'D')).hexdigest()
    def solo(c):
        w = os.path.join(d, 'solo%i' % c)
        os.makedirs(w)
        os.chdir(w)
        np.random.seed(7)
        with contextlib.redirect_stdout(io.StringIO()):
            return h(use(mk(dict(confs[c]), w)))
    for c in (i, j):
        if (k, c) not in SOLO:
            SOLO[k, c] = forked(lambda: solo(c))
    def run():
        os.chdir(d)
        ob, out = {}, []
        for x in il:
            c = i if x == 'A' else j
            if x not in ob:
                w = os.path.join(d, x)
                os.makedirs(w)
                np.random.seed(7)
                ob[x] = mk(confs[c], w)
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    out.append((x, c, h(use(ob[x]))))
        return out
    for x, c, v in forked(run):
        check(v == SOLO[k, c], '%s %s: object %s (options %r) depends on the other one (options %r)' % (k, il, x, confs[c], confs[j if c == i else i]))
        ctx.eval(1)
    ctx.count('states', 4); ctx.count('transitions', len(il)); ctx.count('traces_validated_against_impl', 1)
