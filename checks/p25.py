"""P25: radial basis function models and their optimisation."""
import itertools, math, warnings
import numpy as np
from mc import *
from pwtools import rbf
from pwtools.rbf import core, hyperopt

chk = Check('P25', rule='Every case (all subsets of small point grids in 1-3 dimensions, all kernels, shape parameters, regularisations and value sets; all permutations of a training set; all partitions used for cross-validation; all optimiser modes) is run with the real code and compared with loops over the definition. Non-trivial: at least three training points.',
            assumptions=['linear systems with condition number below 1e9'])
np.seterr(all='ignore')

KERN = {'gauss': lambda s, p: math.exp(-0.5 * s / p ** 2), 'multi': lambda s, p: math.sqrt(s + p * p), 'inv_multi': lambda s, p: 1 / math.sqrt(s + p * p)}
# derivative with respect to s = r^2
DKERN = {'gauss': lambda s, p: -0.5 / p ** 2 * math.exp(-0.5 * s / p ** 2), 'multi': lambda s, p: 0.5 / math.sqrt(s + p * p), 'inv_multi': lambda s, p: -0.5 * (s + p * p) ** -1.5}

def dsq(a, b):
    return sum((float(x) - float(y)) ** 2 for x, y in zip(a, b))

def gram(X, Y, k, p):
    return np.array([[KERN[k](dsq(x, y), p) for y in Y] for x in X])

def mean_p(X):
    return sum(math.sqrt(dsq(a, b)) for a in X for b in X) / len(X) ** 2

def scipy_p(X):
    e = [max(c) - min(c) for c in zip(*X.tolist())]
    e = [x for x in e if x != 0]
    return (np.prod(e) / len(X)) ** (1.0 / len(e))

def weights(X, z, k, p, r):
    G = gram(X, X, k, p)
    if r is None:
        return np.linalg.lstsq(G, z, rcond=None)[0], np.linalg.cond(G)
    A = G + r * np.eye(len(X))
    return np.linalg.solve(A, z), np.linalg.cond(A)

GRID = {1: [[0.0], [0.4], [1.1], [1.5], [2.3], [-0.7]],
        2: [[float(i) + 0.1 * j, 0.8 * j - 0.05 * i * i] for i in range(3) for j in range(3)],
        3: [[float(i), 0.9 * j + 0.1 * i, 1.2 * k - 0.1 * j] for i in range(2) for j in range(2) for k in range(2)]}
NEW = {1: [[0.0], [0.2], [1.9], [-1.3], [2.3]], 2: [[0.0, 0.0], [0.55, 0.3], [2.1, -0.6], [1.1, 0.75]], 3: [[0.0, 0.0, 0.0], [0.5, 0.4, 0.6], [1.2, 1.0, -0.3]]}
VALS = 5
def values(n, i):
    return [np.sin(1.3 * np.arange(n) + 0.4), np.zeros(n), np.full(n, 2.5), np.arange(n) ** 2, 1e6 * np.cos(2.0 * np.arange(n))][i]
PS = ['mean', 'scipy', 0.3, 1.0, -0.6]
RS = [0, 1e-3, 0.5, None]

def gen_models(tier):
    big = tier == 'thorough'
    for nd in (1, 2, 3):
        n = len(GRID[nd])
        for m in range(2, {1: 6, 2: 4, 3: 4}[nd] + big + 1):
            for idx in itertools.combinations(range(n), m):
                yield [nd, list(idx)]

@chk.group(gen_models)
def models(case, ctx):
    nd, idx = case
    X = np.array([GRID[nd][i] for i in idx])
    Y = np.array(NEW[nd])
    n = len(X)
    D2 = np.array([[dsq(x, y) for y in Y] for x in X])
    assert_close(core.squared_dists(X, Y), D2, 'squared distances', 1e-12, 1e-14)
    assert_close(core.euclidean_dists(X, Y), np.sqrt(D2), 'distances', 1e-12, 1e-14)
    if n < 3:
        ctx.trivial()
    for k in KERN:
        for pi, p in enumerate(PS):
            if p == 'scipy' and np.prod([max(c) - min(c) for c in zip(*X.tolist())]) == 0:
                continue
            for ri, r in enumerate(RS):
                z = values(n, (pi + ri + sum(idx)) % VALS)
                pv = mean_p(X) if p == 'mean' else scipy_p(X) if p == 'scipy' else p
                w, cond = weights(X, z, k, pv, r)
                if not cond < 1e9:
                    continue
                ctx.eval()
                b = freeze([X, z, Y])
                f = rbf.Rbf(X, z, rbf=k, r=r, p=p)
                sc = (abs(w).max() * 3 * n + 1)
                tol = max(1e-16 * cond * 50, 1e-12) * sc
                assert_close(f.get_params()[0], pv, 'p', rtol=1e-12)
                check(f.get_params()[1] == r and f.ndim == nd and f.npoints == n, 'parameters')
                t = f(X)
                check(t.shape == (n,), 'shape')
                if r is None or r == 0:
                    assert_close(t, z, 'not through the training points', rtol=0, atol=tol)
                else:
                    assert_close(t + r * w, z, 'regularised model', rtol=0, atol=tol)
                ref = gram(Y, X, k, pv).dot(w)
                got = f(Y)
                assert_close(got, ref, 'prediction', rtol=0, atol=tol)
                assert_close(f.predict(Y), got, 'predict', rtol=0, atol=tol)
                one = [f(y) for y in Y]
                check(all(np.ndim(v) == 0 for v in one), 'single point: no scalar')
                assert_close(one, got, 'single points', rtol=1e-13, atol=1e-14 * sc)
                check(f(Y[:1]).shape == (1,), 'shape for one row')
                # gradients
                gref = np.array([[sum(w[j] * DKERN[k](dsq(y, X[j]), pv) * 2 * (y[c] - X[j, c]) for j in range(n)) for c in range(nd)] for y in Y])
                g = f(Y, der=1)
                gs = tol * max(1, 1 / pv ** 2)
                assert_close(g, gref, 'gradient', rtol=0, atol=gs)
                assert_close(f.deriv(Y), g, 'deriv', rtol=0, atol=gs)
                one = [f(y, der=1) for y in Y]
                check(all(v.shape == (nd,) for v in one), 'single gradient: shape')
                assert_close(one, g, 'single gradients', rtol=1e-12, atol=1e-14 * sc)
                check(f(Y[:1], der=1).shape == (1, nd), 'gradient shape for one row')
                h = 1e-4 * abs(pv)
                num = np.array([[(f(y + h * e) - f(y - h * e)) / (2 * h) for e in np.eye(nd)] for y in Y])
                assert_close(g, num, 'gradient and prediction disagree', rtol=1e-4, atol=1e-5 * sc / abs(pv) + tol / h)
                # errors
                res = np.array([zz - rr for zz, rr in zip(np.cos(np.arange(len(Y))), got)])
                e2 = sum(x * x for x in res) / len(res)
                err = f.fit_error(Y, np.cos(np.arange(len(Y))))
                if pv > 0:
                    assert_close(err, e2, 'fit_error', rtol=1e-8, atol=1e-20)
                elif e2 < 600:
                    assert_close(err, math.exp(e2), 'fit_error with negative p', rtol=1e-5)
                else:
                    check(err > 1e200, 'fit_error with negative p')
                check(freeze([X, z, Y]) == b, 'arguments changed')
                for bad in (lambda: f(Y, der=2), lambda: f(Y, der=0), lambda: f(np.zeros((2, nd + 1))), lambda: f(np.zeros(nd + 1)), lambda: f(np.zeros((2, nd + 1)), der=1)):
                    check(raises(bad), 'accepted')
                if ri == 0:
                    g0 = rbf.Rbf(X, z, rbf=core.rbf_dct[k], r=r, p=p, fit=False)
                    check(not hasattr(g0, 'w'), 'fitted although fit=False')
                    g0.fit()
                    assert_close(g0(Y), got, 'separate fit()', rtol=1e-12, atol=tol)
                    g0.fit()
                    assert_close(g0(Y), got, 'second fit()', rtol=1e-12, atol=tol)
                    u = rbf.Rbf(X, z, rbf=lambda s, q: 1 / (1 + s / (q * q)), p=1.0)
                    w2 = np.linalg.solve([[1 / (1 + dsq(a, c)) for c in X] for a in X], z)
                    if abs(w2).max() < 1e4 * (abs(z).max() + 1):
                        assert_close(u(Y), [sum(w2[j] / (1 + dsq(y, X[j])) for j in range(n)) for y in Y], 'user kernel', rtol=1e-7, atol=1e-8 * sc)
                        check(raises(lambda: u(Y, der=1), AssertionError), 'gradient of unknown kernel')
    assert_close(rbf.estimate_p(X), mean_p(X), 'estimate_p', rtol=1e-12)
    assert_close(rbf.estimate_p(X, 'mean'), mean_p(X), 'estimate_p', rtol=1e-12)
    assert_close(rbf.estimate_p(X, 'scipy'), scipy_p(X), 'estimate_p', rtol=1e-12)
    for sc in (1e-7, 1e-4, 1e5):
        assert_close(rbf.estimate_p(X * sc, 'scipy'), scipy_p(X * sc), 'estimate_p', rtol=1e-12)
        assert_close(rbf.estimate_p(X * sc), mean_p(X * sc), 'estimate_p', rtol=1e-12)
    check(raises(lambda: rbf.estimate_p(X, 'nope')), 'estimate_p method')
    z = values(n, 0)
    for bad in (lambda: rbf.Rbf(X[0], z), lambda: rbf.Rbf(X, z[:-1]), lambda: rbf.Rbf(X, z[:, None]), lambda: rbf.Rbf(X, z, p='nope'), lambda: rbf.Rbf(X, z, rbf='nope')):
        check(raises(bad), 'accepted')

def gen_perm(tier):
    for nd in (1, 2, 3):
        for m in (3, 4) if tier == 'quick' else (3, 4, 5):
            for s in range(0, len(GRID[nd]) - m + 1):
                for k in KERN:
                    for p in ('mean', 'scipy', 0.5):
                        for r in RS:
                            yield [nd, m, s, k, p, r]

@chk.group(gen_perm)
def permutations(case, ctx):
    nd, m, s, k, p, r = case
    X = np.array(GRID[nd][s:s + m])
    if p == 'scipy' and np.prod([max(c) - min(c) for c in zip(*X.tolist())]) == 0:
        ctx.trivial()
        return
    z = values(m, 0)
    Y = np.array(NEW[nd])
    base = None
    for pm in itertools.permutations(range(m)):
        ctx.eval()
        pm = list(pm)
        f = rbf.Rbf(X[pm], z[pm], rbf=k, p=p, r=r)
        w, cond = weights(X, z, k, f.p, r)
        if not cond < 1e9:
            ctx.trivial()
            return
        got = np.concatenate([f(Y), f(Y, der=1).ravel(), [f.p]])
        if base is None:
            base = got
        assert_close(got, base, 'order %s of the training points matters' % pm, rtol=0, atol=max(1e-15 * cond, 1e-12) * (abs(base).max() + abs(w).max()) * 20)
    # non-contiguous, integer and Fortran-ordered input
    W = np.zeros((2 * m, 2 * nd)); W[::2, ::2] = X
    for XX in (W[::2, ::2], np.asfortranarray(X)):
        f = rbf.Rbf(XX, z, rbf=k, p=p, r=r)
        assert_close(np.concatenate([f(Y), f(Y, der=1).ravel(), [f.p]]), base, 'memory layout', rtol=0, atol=max(1e-15 * cond, 1e-12) * (abs(base).max() + abs(w).max()) * 20)

# ------------------------------------------------------------------ errors
class Split:
    """a fixed list of (train, test)"""
    def __init__(self, lst):
        self.lst = lst
    def get_n_splits(self, *args):
        return len(self.lst)
    def split(self, X, *args):
        for a, b in self.lst:
            yield np.array(a), np.array(b)

def own_err(Xtr, ztr, Xte, zte, k, p, r):
    w, cond = weights(Xtr, ztr, k, p, r)
    res = zte - gram(Xte, Xtr, k, p).dot(w)
    e = sum(x * x for x in res) / len(res)
    return (math.exp(min(e, 600)) if p < 0 else e), cond

def gen_cv(tier):
    for nd in (1, 2):
        for n in (4, 5):
            for k in KERN:
                for par in ([0.8], [1.3, 0], [0.7, 0.01], [1.0, None], [-0.5, 0.1]):
                    for base in ({}, {'r': 0.02}):
                        if len(par) == 2 and base:
                            continue
                        yield [nd, n, k, par, base]

@chk.group(gen_cv)
def cross_validation(case, ctx):
    nd, n, k, par, base = case
    X = np.array(GRID[nd][:n])
    z = values(n, 0)
    kw = dict(base, rbf=k)
    p = par[0]
    r = par[1] if len(par) == 2 else base.get('r', 0)
    b = freeze([X, z, par, kw])
    fe = rbf.FitError(X, z, rbf_kwds=kw, cv=None) if hasattr(rbf, 'FitError') else hyperopt.FitError(X, z, rbf_kwds=kw, cv=None)
    FE = type(fe)
    d, cond = own_err(X, z, X, z, k, p, r)
    tol = max(1e-14 * cond, 1e-12) * 10
    if d < 1e200:
        assert_close(fe.err_direct(par), d, 'direct error', rtol=1e-6, atol=tol)
        assert_close(fe(par), d, 'call without cv', rtol=1e-6, atol=tol)
    # all ways to leave out one or two points, in all orders of two folds
    folds = [(sorted(set(range(n)) - set(t)), list(t)) for m in (1, 2) for t in itertools.combinations(range(n), m)]
    errs = []
    for tr, te in folds:
        e, c = own_err(X[tr], z[tr], X[te], z[te], k, p, r)
        errs.append(e)
    if max(errs + [d]) > 1e200:
        ctx.trivial()       # penalty overflows
        return
    def cmp(split, ref):
        ctx.eval()
        f = FE(X, z, rbf_kwds=kw, cv=Split(split))
        assert_close(f.cv(par), ref, 'cv', rtol=1e-6, atol=1e-11)
        assert_close(f.err_cv(par), sum(ref) / len(ref), 'err_cv', rtol=1e-6, atol=1e-11)
        assert_close(f(par), sum(ref) / len(ref), 'call', rtol=1e-6, atol=1e-11)
        assert_close(f.err_direct(par), d, 'direct error', rtol=1e-6, atol=tol)
    cmp(folds, errs)
    for i, j in itertools.permutations(range(len(folds)), 2):
        cmp([folds[i], folds[j]], [errs[i], errs[j]])
    # the splitter from scikit-learn with a fixed seed
    try:
        from sklearn.model_selection import RepeatedKFold
    except ImportError:
        RepeatedKFold = None
    if RepeatedKFold:
        for ns, nr in ((2, 1), (2, 2), (n - 1, 1), (n, 3)) + (((5, 2),) if n >= 5 else ()):
            ctx.eval()
            cv = dict(n_splits=ns, n_repeats=nr, random_state=3)
            if ns == 5 and nr == 2:
                cv.pop('n_splits')           # default of sklearn
            ref = [own_err(X[a], z[a], X[c], z[c], k, p, r)[0] for a, c in RepeatedKFold(**cv).split(X)]
            check(len(ref) == ns * nr, 'harness')
            if max(ref) > 1e200:
                continue
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fs = [FE(X, z, rbf_kwds=kw, cv=cv), FE(X, z, rbf_kwds=kw, cv=RepeatedKFold(**cv)), FE(X, z, rbf_kwds=kw, cv_kwds=cv), FE(X, z, rbf_kwds=kw, cv=None, cv_kwds=cv)]
            for f in fs:
                assert_close(f.cv(par), ref, 'cv', rtol=1e-6, atol=1e-11)
                assert_close(f(par), sum(ref) / len(ref), 'call', rtol=1e-6, atol=1e-11)
    check(freeze([X, z, par, kw]) == b, 'arguments changed')
    check(raises(lambda: fe([1.0, 0, 3])), 'three parameters')
    check(raises(lambda: FE(X, z, rbf_kwds=dict(p=1.0), cv=None)([1.0])), 'p twice')
    check(raises(lambda: FE(X, z, rbf_kwds=dict(r=1.0), cv=None)([1.0, 0.1])), 'r twice')

# ------------------------------------------------------------------ optimisation
def gen_opt(tier):
    for method in ('brute', 'fmin', 'de'):
        for what in ('p', 'pr'):
            for cv in (None, 'split', 'kfold', 'one'):
                for k in KERN:
                    for opts in range(3):
                        for rk in ({}, {'r': 0.05}):
                            if what == 'pr' and rk:
                                continue
                            yield [method, what, cv, k, opts, rk]

@chk.group(gen_opt)
def optimise(case, ctx):
    method, what, cv, k, opts, rk = case
    X = np.array(GRID[1] + [[3.1], [3.6]])
    z = np.sin(2 * X[:, 0]) + 0.3 * np.cos(5.0 * np.arange(len(X)))
    n = len(X)
    seen = []
    kern = core.rbf_dct[k]
    def spy(s, p):
        seen.append(float(p))
        return kern(s, p)
    lst = [([0, 2, 4, 5, 6], [1, 3, 7]), ([1, 3, 4, 6, 7], [0, 2, 5]), ([0, 1, 2, 3, 7], [4, 5, 6])]
    cvo = {None: None, 'split': Split(lst), 'kfold': dict(n_splits=4, n_repeats=2, random_state=0), 'one': Split(lst[:1])}[cv]
    # starting values, bounds and grids; None: defaults of the library
    o = {}
    if method == 'brute':
        if opts:
            o = dict(ranges=((0.2, 3.0), (1e-6, 0.1))[:len(what)], Ns=5)
        else:
            o = dict(Ns=4)
        if opts == 2:
            o['finish'] = None
    elif method == 'fmin':
        if opts:
            o = dict(x0=[[0.6], [0.6, 1e-3]][len(what) - 1], maxiter=30)
        if opts == 2:
            o['disp'] = False
    else:
        o = dict(seed=1, maxiter=3, popsize=5)
        if opts:
            o['bounds'] = [(0.2, 3.0), (1e-6, 0.1)][:len(what)]
        if opts == 2:
            o.update(polish=False, disp=False)
    kw = dict(rk, rbf=spy)
    b = freeze([X, z, {a: c for a, c in o.items()}, sorted(rk.items())])
    okeys, kkeys = sorted(o), sorted(kw)
    call = dict(method=method, what=what, cv=cvo, rbf_kwds=kw, opt_kwds=o)
    np.random.seed(7)
    try:
        f = rbf.fit_opt(X, z, **call) if hasattr(rbf, 'fit_opt') else hyperopt.fit_opt(X, z, **call)
    except Exception as e:
        # a singular system may be refused, but only if the candidates contain one
        if not isinstance(e, np.linalg.LinAlgError):
            raise
        ctx.trivial()
        return
    check(sorted(o) == okeys and freeze([X, z, o, sorted(rk.items())]) == b, 'settings of the caller changed: %s' % o)
    check(sorted(kw) == kkeys and kw['rbf'] is spy, 'rbf settings of the caller changed')
    check(cv != 'kfold' or cvo == dict(n_splits=4, n_repeats=2, random_state=0), 'cv settings changed')
    p, r = float(f.p), f.r
    check(f.rbf is spy and f.points.shape == X.shape, 'model')
    if what == 'p':
        check(r == rk.get('r', 0), 'fixed r: %r' % (r,))
    assert_equal(np.asarray(f.points), X, 'points')
    assert_equal(np.asarray(f.values), z, 'values')
    # the model returned is the model of these parameters
    w, cond = weights(X, z, k, p, r)
    if cond < 1e8:
        Y = np.array([[0.3], [2.0]])
        assert_close(f(Y), gram(Y, X, k, p).dot(w), 'prediction', rtol=1e-6, atol=1e-8 * (1 + abs(w).max()))
    FE = hyperopt.FitError(X, z, rbf_kwds=dict(rk, rbf=kern), cv=cvo)
    def err(par):
        try:
            return float(FE(par))
        except Exception:
            return math.inf
    best = err([p] if what == 'p' else [p, r])
    check(best == best, 'error of the optimum is nan')
    # candidates
    if what == 'p':
        cand = [[q] for q in sorted(set(seen[:-4])) if q > 0]
    elif method == 'brute' and opts:
        cand = [[a, c] for a in np.linspace(0.2, 3.0, 5) for c in np.linspace(1e-6, 0.1, 5)]
    elif method == 'fmin':
        cand = [o.get('x0', [mean_p(X), 1e-8])]
    else:
        cand = []
    for c in cand:
        ctx.eval()
        e = err(c)
        if e < best - 1e-9 * abs(best) - 1e-13:
            # rounding noise of ill-conditioned systems
            _, cond = weights(X, z, k, c[0], c[1] if len(c) == 2 else rk.get('r', 0))
            check(cond > 1e10, lambda: 'candidate %s has error %r, the result %r has %r' % (c, e, (p, r), best))
    if method == 'brute' and opts == 2:
        g = [[a] for a in np.linspace(0.2, 3.0, 5)] if what == 'p' else cand
        check([p] in g if what == 'p' else [p, r] in [list(map(float, q)) for q in g], 'result is not on the grid')
        for a in np.linspace(0.2, 3.0, 5):
            check(any(abs(a - q) < 1e-12 for q in seen), 'grid point %r was not tried' % a)
    if method == 'de' and opts:
        check(0.2 - 1e-12 <= p <= 3.0 + 1e-12, 'p outside the bounds')
        if what == 'pr':
            check(1e-6 * (1 - 1e-9) <= r <= 0.1 * (1 + 1e-9), 'r outside the bounds')
    # the same settings again
    np.random.seed(7)
    f2 = hyperopt.fit_opt(X, z, **call)
    check((float(f2.p), f2.r) == (p, r), 'second call with the same settings: %r and %r' % ((p, r), (f2.p, f2.r)))

@chk.group(lambda tier: [[a, b] for a in ('p', 'pr') for b in range(4)])
def defaults(case, ctx):
    """calls which rely on default arguments, before and after other calls"""
    what, i = case
    X = np.array(GRID[1])
    z = np.sin(2 * X[:, 0])
    def run():
        f = hyperopt.fit_opt(X, z, what=what, method='fmin', cv=None)
        return [float(f.p), f.r]
    ref = run()
    if i == 1:
        hyperopt.fit_opt(X, z, what=what, method='fmin', cv=None, opt_kwds=dict(x0=[0.5, 0.1][:len(what)], maxiter=3))
    elif i == 2:
        hyperopt.fit_opt(X, z, what=what, method='brute', cv=None, opt_kwds=dict(Ns=3))
    elif i == 3:
        hyperopt.fit_opt(X, z, what='p', method='fmin', cv=None, rbf_kwds=dict(r=0.3, rbf='multi'))
    check(run() == ref, 'a call with default arguments depends on earlier ones')
    for bad in (dict(what='r'), dict(method='nope'), dict(what='p', rbf_kwds=dict(p=1.0)), dict(what='pr', rbf_kwds=dict(r=1.0)), dict(what='pr', rbf_kwds=dict(p=1.0))):
        check(raises(lambda: hyperopt.fit_opt(X, z, cv=None, **bad)), '%s accepted' % bad)
