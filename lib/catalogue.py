"""Catalogue of library calls: name -> maker(L, d) returning a list of calls
(fn, args, kwds, inplace) with fresh arguments.  L is applied to every input
array (a memory layout), d is an empty scratch directory (the current one).

inplace: indices of arguments whose modification is the documented purpose.
flags: 'iter' arguments are iterators; 'int' also integer arrays are valid."""
import os, types
import numpy as np
import co, outgen
from pwtools import (crys, num, signal, pydos, thermo, mttk, eos, kpath, pwscf, dcd, io, parse, arrayio, sql, batch, common, comb, mpl, symmetry, base, random as prandom, regex)
from pwtools import rbf
from pwtools.rbf import hyperopt

ident = lambda a: a
OPS = {}
LAY = set()     # ops where the result must not depend on the layout bit patterns (to rounding)

def op(name, n=None):
    def deco(f):
        assert name not in OPS, name
        OPS[name] = f
        return f
    return deco

def calls(name, L=ident, d='.'):
    r = OPS[name](L, d)
    if isinstance(r, tuple):
        r = [r]
    out = []
    for c in r:
        fn, args = c[0], list(c[1])
        kw = c[2] if len(c) > 2 else {}
        inp = c[3] if len(c) > 3 else ()
        out.append((fn, args, kw, inp))
    return out

def canon(x, depth=0, seen=()):
    """deterministic structural value (no addresses)"""
    if id(x) in seen:
        return 'cycle'
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('ndo', x.shape, tuple(canon(e, depth + 1, seen) for e in x.ravel()))
        return ('nd', x.shape, x.dtype.str, x.tobytes())
    if x is None or isinstance(x, (int, float, complex, str, bytes, bool, np.generic)):
        return (type(x).__name__, repr(x))
    seen = seen + (id(x),)
    if isinstance(x, dict):
        return ('d',) + tuple((repr(k), canon(v, depth + 1, seen)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(e, depth + 1, seen) for e in x)
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(e) for e in x))
    if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, np.ufunc, types.ModuleType)):
        return ('callable', getattr(x, '__name__', '?'))
    if isinstance(x, BaseException):
        return ('exc', type(x).__name__, str(x))
    if hasattr(x, '__dict__') and depth < 12:
        return (type(x).__name__,) + tuple((k, canon(v, depth + 1, seen)) for k, v in sorted(vars(x).items()))
    return (type(x).__name__,)

# --- data ----------------------------------------------------------------------
SY = ['Al', 'N', 'N', 'O']
CELL = co.CELLS['tri']
def frac(seed=0, n=4, lo=0.02, hi=0.97):
    return np.array(co.gen_frac(n, seed, lo, hi))
def A(shape, seed=0, lo=-1.0, hi=1.0):
    return np.array(co.gen_arr((shape,) if isinstance(shape, int) else shape, seed, lo, hi), dtype=float)
def X(n=8, a=0.5, b=4.0):
    return np.linspace(a, b, n)
def Y(n=8, s=0):
    x = X(n)
    return (x - 2.1) ** 2 + 0.1 * np.sin(3 * x + s)

def struct(L=ident, seed=0, **kw):
    d = dict(coords_frac=L(frac(seed)), cell=L(np.array(CELL)), symbols=list(SY), forces=L(A((4, 3), 1)), stress=L(A((3, 3), 2)), etot=-3.5)
    d.update(kw)
    return crys.Structure(**d)

def traj(L=ident, n=5, vc=False, **kw):
    d = dict(coords_frac=L(np.array([frac(t) for t in range(n)])), symbols=list(SY), cell=L(np.array(CELL)) if not vc else L(co.vcells(CELL, n, amp=.01)),
             forces=L(A((n, 4, 3), 3)), stress=L(A((n, 3, 3), 4)), etot=L(A((n,), 5)), timestep=0.7)
    d.update(kw)
    return crys.Trajectory(**d)

# --- crys --------------------------------------------------------------------------
CCV = np.array([3.4, 4.6, 5.3, 81.0, 97.0, 112.0])
for nm, fn, mk in [('angle', crys.angle, lambda L: (L(A(3, 1)), L(A(3, 2)))), ('volume_cell', crys.volume_cell, lambda L: (L(CELL.copy()),)),
        ('volume_cell3d', crys.volume_cell3d, lambda L: (L(np.array([CELL, 2 * CELL])),)), ('volume_cc', crys.volume_cc, lambda L: (L(CCV.copy()),)),
        ('volume_cc3d', crys.volume_cc3d, lambda L: (L(np.array([CCV, CCV])),)), ('cell2cc', crys.cell2cc, lambda L: (L(CELL.copy()),)),
        ('cell2cc3d', crys.cell2cc3d, lambda L: (L(np.array([CELL, 2 * CELL])),)), ('cc2cell', crys.cc2cell, lambda L: (L(CCV.copy()),)),
        ('cc2cell3d', crys.cc2cell3d, lambda L: (L(np.array([CCV, CCV])),)), ('recip_cell', crys.recip_cell, lambda L: (L(CELL.copy()),)),
        ('cc2celldm', crys.cc2celldm, lambda L: (L(CCV.copy()),)), ('celldm2cc', crys.celldm2cc, lambda L: (L(np.array([5.0, 1.2, 1.3, .1, .2, .3])),)),
        ('rmax_smith', crys.rmax_smith, lambda L: (L(CELL.copy()),)), ('tensor2voigt', crys.tensor2voigt, lambda L: (L(np.arange(9.).reshape(3, 3) + np.arange(9.).reshape(3, 3).T),)),
        ('voigt2tensor', crys.voigt2tensor, lambda L: (L(np.arange(6.)),)), ('voigt2tensor3d', crys.voigt2tensor3d, lambda L: (L(A((4, 6), 1)),)),
        ('tensor2voigt3d', crys.tensor2voigt3d, lambda L: (L(np.array([np.arange(9.).reshape(3, 3) + np.arange(9.).reshape(3, 3).T] * 3)),))]:
    OPS['crys.' + nm] = lambda L, d, fn=fn, mk=mk: (fn, mk(L))
op('crys.axis_variants')(lambda L, d: [(crys.volume_cell3d, (L(np.moveaxis(np.array([CELL, 2 * CELL]), 0, -1).copy()),), dict(axis=-1)),
    (crys.cell2cc3d, (L(np.moveaxis(np.array([CELL, 2 * CELL]), 0, 1).copy()),), dict(axis=1)), (crys.cc2cell3d, (L(np.array([CCV, CCV]).T.copy()),), dict(axis=1))])
op('crys.grids')(lambda L, d: [(crys.grid_in_cell, (L(CELL.copy()),), dict(h=.8)), (crys.grid_in_cell, (L(CELL.copy()),), dict(size=[2, 3, 4], fullout=True)),
    (crys.kgrid, (L(CELL.copy()),), dict(h=.5)), (crys.grid_in_cell, (L(CELL.copy()),), dict(h=.8, even=True, minpoints=2))])
op('crys.scell_mask')(lambda L, d: (crys.scell_mask, (2, 3, 1)))
op('crys.scell')(lambda L, d: [(crys.scell, (struct(L), dims), dict(method=m)) for m in (1, 2) for dims in [(2, 1, 2)]] + [(crys.scell, (struct(L), [1, 2, 1]))])
op('crys.scell3d')(lambda L, d: [(crys.scell3d, (traj(L), (2, 1, 1))), (crys.scell, (traj(L, vc=True), (1, 2, 1)))])
op('crys.velocity_traj')(lambda L, d: [(crys.velocity_traj, (L(A((5, 3, 3), 1)),), dict(dt=.5, axis=0)), (crys.velocity_traj, (L(A((5, 3, 3), 1)),), dict(dt=.5, endpoints=False))])
op('crys.rmsd')(lambda L, d: (crys.rmsd, (traj(L),), dict(ref_idx=2)))
op('crys.pbc_wrap_coords')(lambda L, d: [(crys.pbc_wrap_coords, (L(A((4, 3), 1, -3, 3)),)), (crys.pbc_wrap_coords, (L(A((4, 3), 1, -3, 3)),), dict(mask=[True, False, True])),
    (crys.pbc_wrap_coords, (L(A((3, 4, 2), 1, -3, 3)),), dict(xyz_axis=0)), (crys.pbc_wrap_coords, (L(A((4, 3), 1, -3, 3)),), dict(copy=False), (0,))])
op('crys.pbc_wrap')(lambda L, d: [(crys.pbc_wrap, (struct(L),)), (crys.pbc_wrap, (traj(L),), dict(mask=[True, True, False]))])
op('crys.coord_trans')(lambda L, d: [(crys.coord_trans, (L(frac()),), dict(old=L(CELL.copy()), new=L(np.identity(3)))), (crys.coord_trans, (L(frac().T.copy()),), dict(old=L(CELL.copy()), new=L(2 * CELL), axis=0)),
    (crys.coord_trans, (L(frac()),), dict(old=L(CELL.copy()), new=L(np.identity(3)), copy=False), (0,))])
op('crys.coord_trans3d')(lambda L, d: [(crys.coord_trans3d, (L(np.array([frac(0), frac(1)])),), dict(old=L(np.array([CELL, 2 * CELL])), new=L(np.array([np.identity(3)] * 2)), axis=-1, timeaxis=0)),
    (crys.coord_trans3d, (L(np.array([frac(0), frac(1)]).transpose(1, 2, 0).copy()),), dict(old=L(np.moveaxis(np.array([CELL, 2 * CELL]), 0, -1).copy()), new=L(np.moveaxis(np.array([np.identity(3)] * 2), 0, -1).copy()), axis=1, timeaxis=2))])
op('crys.min_image')(lambda L, d: [(crys.min_image_convention, (L(A((4, 4, 3), 1, -2, 2)),), dict(copy=True)), (crys.min_image_convention, (L(A((4, 4, 3), 1, -2, 2)),), {}, (0,))])
op('crys.rpdf')(lambda L, d: [(crys.rpdf, (traj(L),), dict(dr=.2, rmax=3.0)), (crys.rpdf, (struct(L),), dict(dr=.2)), (crys.rpdf, ([traj(L), traj(L)],), dict(dr=.2, amask=['Al', 'N'], tmask=slice(0, None, 2))),
    (crys.rpdf, (traj(L),), dict(dr=.2, rmax=3.0, amask=[np.array([True, True, False, False]), np.array([False, True, True, True])], dmask='>1.0', norm_vmd=True))])
op('crys.distances')(lambda L, d: [(crys.distances, (struct(L),), dict(pbc=True, fullout=True)), (crys.distances, (struct(L),), dict(squared=True)), (crys.distances, (struct(L),), dict(pbc=True))])
op('crys.distances_traj')(lambda L, d: [(crys.distances_traj, (traj(L),), dict(pbc=p)) for p in (True, False)])
op('crys.angles')(lambda L, d: [(crys.angles, (struct(L),), dict(pbc=p, mask_val=-9.0, deg=g)) for p in (True, False) for g in (True, False)])
op('crys.nn')(lambda L, d: [(crys.nearest_neighbors, (struct(L),), dict(idx=1, num=2, fullout=True)), (crys.nearest_neighbors, (struct(L),), dict(idx=0, cutoff=3.0, skip=['O'])),
    (crys.nearest_neighbors_struct, (struct(L),), dict(idx=1, num=3)), (crys.nearest_neighbors_from_dists, (crys.distances(struct(L)), list(SY)), dict(idx=0, num=2))])
op('crys.center_on_atom')(lambda L, d: [(crys.center_on_atom, (struct(L),), dict(idx=1)), (crys.center_on_atom, (traj(L),), dict(idx=0)), (crys.center_on_atom, (struct(L),), dict(idx=2, copy=False), (0,))])
op('crys.compress')(lambda L, d: [(crys.compress, (traj(L),)), (crys.compress, (traj(L),), dict(forget=['stress'], dtype=np.float32)), (crys.compress, (traj(L),), dict(copy=False), (0,))])
op('crys.conv')(lambda L, d: [(crys.struct2atoms, (struct(L),)), (crys.atoms2struct, (struct(L).get_ase_atoms(),)), (crys.struct2traj, (struct(L),)), (crys.struct2traj, (traj(L),)), (lambda s: s.get_traj(3), (struct(L),))])
op('crys.concatenate')(lambda L, d: [(crys.concatenate, ([traj(L), struct(L), traj(L, 2)],)), (crys.concatenate, ([struct(L), struct(L, 1)],)), (crys.populated_attrs, ([struct(L), struct(L)],))])
op('crys.mean')(lambda L, d: [(crys.mean, (traj(L),)), (crys.mean, (traj(L, vc=True),))])
op('crys.smooth')(lambda L, d: [(crys.smooth, (traj(L, 12), L(np.array([.25, .5, .25]))), dict(method=m)) for m in (1, 2)])
op('crys.mix')(lambda L, d: [(crys.mix, (struct(L), struct(L, 2), L(np.array([0., .5, 1.]))))])
op('crys.align_cart')(lambda L, d: [(crys.align_cart, (struct(L),), dict(x=L(np.array([1., 2, 0])), y=L(np.array([-2., 1, 0])))), (crys.align_cart, (traj(L),), dict(vecs=L(np.array([[.1, .2, .3], [1.1, .2, .3], [.1, .2, 2.3]])))), (crys.align_cart, (struct(L),), dict(cart=L(np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]]))))])
op('crys.Structure')(lambda L, d: [(crys.Structure, (), dict(coords=L(A((4, 3), 1, 0, 3)), cell=L(CELL.copy()), symbols=list(SY), units={'length': 2.0}, stress=L(A((3, 3), 1)))),
    (crys.Structure, (), dict(coords_frac=L(frac()), cryst_const=L(CCV.copy()), symbols=list(SY), velocity=L(A((4, 3), 5)), forces=L(A((4, 3), 2)), units={'forces': 3.0, 'velocity': 2.0, 'length': .5})),
    ])
op('crys.Trajectory')(lambda L, d: [(crys.Trajectory, (), dict(coords=L(A((3, 4, 3), 1, 0, 3)), cell=L(CELL.copy()), symbols=list(SY), units={'length': 2.0, 'time': 3.0}, timestep=.5, velocity=L(A((3, 4, 3), 2)))),
    (crys.Trajectory, (), dict(coords_frac=L(A((3, 4, 3), 1, 0, 1)), cryst_const=L(CCV.copy()), symbols=list(SY), stress=L(A((3, 3, 3), 2)), etot=L(A(3, 1)), units={'stress': 2.0, 'energy': 5.0}))])
op('crys.Trajectory.slice')(lambda L, d: [(lambda t, i: t[i], (traj(L, vc=True), i)) for i in (0, -1, slice(1, None, 2))] + [(lambda t: [s for s in t], (traj(L),))])

# --- num ------------------------------------------------------------------------
op('num.simple')(lambda L, d: [(num.normalize, (L(A((3, 4), 1)),)), (num.vlinspace, (L(A(3, 1)), L(A(3, 2)), 5)), (num.norm_int, (L(Y()), L(X())), dict(area=2.0)), (num.norm_int, (L(Y()), L(X())), dict(scale=False)),
    (num.deriv_spl, (L(Y()),), dict(x=L(X()), n=1)), (num.deriv_spl, (L(Y()),), dict(x=L(X()), xnew=L(X(5, 1, 3)), n=2, fullout=True)), (num.findmin, (L(X()), L(Y()))), (num.norm, (L(A(5, 1)),)),
    (num.euler_matrix, (.1, .2, .3)), (num.round_up_next_multiple, (7, 3)), (num.rms, (L(A((3, 4), 1)),)), (num.rms3d, (L(A((3, 4, 2), 1)),), dict(axis=1)), (num.meshgridt, (L(X(3)), L(X(4)))),
    (num.distsq, (L(A((3, 2), 1)), L(A((4, 2), 2)))), (num.inner_points_mask, (L(A((9, 2), 1)),))])
op('num.Fit1D')(lambda L, d: [(lambda x, y: (lambda s: [s(2.0), s(L(X(4, 1, 3))), s(L(X(4, 1, 3)), der=1), s.get_min(), s.is_mono()])(num.Spline(x, y)), (L(X()), L(Y()))),
    (lambda x, y: (lambda s: [s.invsplev(1.0, xab=[2.2, 3.9]), s.get_root(xab=[2.5, 3.9]), s.is_mono()])(num.Spline(x, y, k=3)), (L(X()), L(Y() - 1))),
    (lambda x, y: (lambda s: [s(L(X(4, 1, 3))), s.get_min(), s(2.0, der=2)])(num.PolyFit1D(x, y, deg=4)), (L(X()), L(Y()))),
    (lambda x, y: (lambda s: [s(L(X(4, 1, 3))), s.get_max(x0=1.5)])(num.PolyFit1D(x, -y, deg=4, scale=False)), (L(X()), L(Y())))])
op('num.slicetake')(lambda L, d: [(num.slicetake, (L(A((3, 4, 2), 1)), s), dict(axis=ax, copy=c)) for c in (True, False) for s, ax in [(slice(0, 2), 1), (1, 0), ((slice(None), slice(1, 3), 0), None)]] +
    [(num.slicetake, (L(A((3, 4, 2), 1)), [slice(None), slice(1, 3), slice(None)]), dict(axis=None))])
op('num.sliceput')(lambda L, d: (num.sliceput, (L(A((3, 4), 1)), L(A((3, 2), 2)), slice(1, 3)), dict(axis=1), (0,)))
op('num.extend_array')(lambda L, d: [(num.extend_array, (L(A((3, 4), 1)), 2), dict(axis=a)) for a in (0, 1, -1)])
op('num.sum')(lambda L, d: [(num.sum, (L(A((2, 3, 4), 1)),), dict(axis=a, keepdims=k)) for k in (False, True) for a in (None, 0, (0, 2), (1, 2), [0, 1]) if a is not None or not k])
op('num.poly')(lambda L, d: [(num.poly_powers, (2, 3)), (num.poly_str, (2, 2)), (num.vander, (L(A((9, 2), 1)), 2)), (num.polyfit, (L(A((9, 2), 1)), L(A(9, 2)), 2)), (num.polyfit, (L(A((9, 2), 1)), L(A(9, 2)), 2), dict(scale=False, scale_vand=True)),
    (lambda p, v, q: [num.polyval(num.polyfit(p, v, 2), q, der=0)], (L(A((9, 2), 1)), L(A(9, 2)), L(A((3, 2), 5)))),
    (lambda p, v, q: [num.PolyFit(p, v, deg=2)(q), num.PolyFit(p, v, deg=2).get_min(x0=np.array([.1, .1]))], (L(A((9, 2), 1)), L((A((9, 2), 1) ** 2).sum(1)), L(A((3, 2), 5))))])
op('num.polyval')(lambda L, d: (num.polyval, (num.polyfit(A((9, 2), 1), A(9, 2), 2), L(A((3, 2), 5)))))
op('num.mask')(lambda L, d: [(num.match_mask, (L(np.array([1, 2, 3, 2])), L(np.array([2, 9])))), (num.match_mask, (L(np.array([1.1, 2, 3, 2])), L(np.array([2, 9.]))), dict(eps=.2, fullout=True)),
    (num.order_similar, (L(np.sort(A((6, 3), 1), axis=1)),), dict(repeat=2)), (num.order_similar, (L(A((6, 4), 2)),))])
op('num.Interpol2D')(lambda L, d: [(lambda p, v, q, w: num.Interpol2D(p, v, what=w, **({'deg': 3} if w == 'poly' else {}))(q), (L(A((25, 2), 1)), L((A((25, 2), 1) ** 2).sum(1)), L(A((3, 2), 5, -.4, .4)), w)) for w in ('rbf_inv_multi', 'rbf_multi', 'rbf_gauss', 'poly', 'ct', 'linear')] +
    [(lambda q, dd: num.Interpol2D(dd=dd, what='bispl')(q), (L(A((3, 2), 5, .2, .8)), mpl.Data2D(x=np.linspace(0, 1, 6), y=np.linspace(0, 1, 7), zz=np.arange(42.) ** 1.5)))])
op('num.DataND')(lambda L, d: (lambda a: num.DataND(a2=a), (L(np.array([[i, j, i * 10 + j] for i in range(3) for j in range(2)], dtype=float)),)))

# --- signal / pydos --------------------------------------------------------------
op('signal.simple')(lambda L, d: [(signal.fftsample, (2.0, .01)), (signal.dft, (L(A(8, 1)),)), (signal.dft, (L(A(8, 1)),), dict(method='matmul')), (signal.ezfft, (L(A(8, 1)),), dict(dt=.1)), (signal.fft_1d_loop, (L(A((3, 8), 1)),)),
    (signal.fft_1d_loop, (L(A((8, 3), 1)),), dict(axis=0)), (signal.pad_zeros, (L(A((4, 3), 1)),), dict(nadd=3)), (signal.pad_zeros, (L(A((4, 3), 1)),), dict(axis=1, where='start', upto=7)),
    (signal.pad_zeros, (L(A((5, 3), 1)),), dict(tonext=True)), (signal.welch, (9,)), (signal.lorentz, (9,)), (signal.mirror, (L(A((4, 2), 1)),)), (signal.gauss, (L(X()),), dict(std=.3, norm=True)), (signal.odd, (4,)),
    (signal.scale, (L(A(6, 1)),)), (signal.scale, (L(A(6, 1)),), dict(copy=False), (0,))])
op('signal.acorr')(lambda L, d: [(signal.acorr, (L(A(9, 1)),), dict(method=m, norm=n)) for m in range(1, 8) for n in (True, False)])
op('signal.find_peaks')(lambda L, d: [(signal.find_peaks, (L(np.sin(np.linspace(0, 12, 60))),)), (signal.find_peaks, (L(np.sin(np.linspace(0, 12, 60))),), dict(x=L(np.linspace(0, 12, 60)), ymin=.2))])
op('signal.smooth')(lambda L, d: [(signal.smooth, (L(A((12, 3), 1)), L(np.array([.2, .5, .3])[:, None])), dict(axis=0, edge=e, norm=n)) for e in ('m', 'c') for n in (True, False)] + [(signal.smooth, (L(A((2, 12), 1)), L(signal.gauss(np.arange(-2., 3), 1)[None, :])), dict(axis=1))])
op('signal.FIR')(lambda L, d: [(lambda x: signal.FIRFilter(cutoff=.2, nyq=1.0, ntaps=9)(x), (L(A(40, 1)),)), (lambda c, x: signal.FIRFilter(cutoff=c, nyq=1.0, ntaps=10, mode='bandstop')(x), ([.2, .5], L(A(40, 1)))),
    (lambda x: signal.FIRFilter(cutoff=.3, nyq=1.0, ripple=20, width=.3)(x), (L(A(80, 1)),))])
op('pydos.vacf')(lambda L, d: [(pydos.pyvacf, (L(A((6, 3, 3), 1)),), dict(m=mm, method=m)) for m in (1, 2, 3) for mm in (None, L(np.array([1., 2, 3])))])
op('pydos.fvacf')(lambda L, d: [(pydos.fvacf, (L(A((6, 3, 3), 1)),), dict(m=mm, method=m, nthreads=1)) for m in (1, 2) for mm in (None, L(np.array([1., 2, 3])))])
op('pydos.pdos')(lambda L, d: [(pydos.pdos, (L(A((16, 3, 3), 1)),), dict(dt=.5, m=L(np.array([1., 2, 3])), method='direct', full_out=True)), (pydos.pdos, (L(A((16, 3, 3), 1)),), dict(dt=.5, m=L(np.array([1., 2., 3.])), method='vacf')),
    (pydos.direct_pdos, (L(A((16, 3, 3), 1)),), dict(dt=.5, window=False, npad=2, tonext=False)), (pydos.vacf_pdos, (L(A((16, 3, 3), 1)),), dict(dt=.5, mirr=True))])

# --- thermo, mttk, eos, kpath ----------------------------------------------------------
def phdos(s=0):
    f = np.linspace(1.0, 900 + 10 * s, 40)
    g = f ** 2 * np.exp(-f / (200. + s))
    return np.array([f, 6 * g / g.sum() / (f[1] - f[0])]).T
op('thermo.Harmonic')(lambda L, d: [(lambda f, g, T: (lambda h: [h.evib(), h.cv(), h.fvib(), h.svib()])(thermo.HarmonicThermo(f, g, T=T, verbose=False)), (L(phdos()[:, 0].copy()), L(phdos()[:, 1].copy()), L(np.array([5., 100, 900])))),
    (lambda f, g, T: (lambda h: [h.fvib(T), h.svib(T)])(thermo.HarmonicThermo(f, g, skipfreq=True, dosarea=6.0, verbose=False)), (L(np.r_[-1., 0, phdos()[:, 0]]), L(np.r_[.1, .1, phdos()[:, 1]]), L(np.array([5., 100, 900])))),
    (lambda f, g, T: (lambda h: [h.cv(T)])(thermo.HarmonicThermo(f, g, fixnan=True, verbose=False)), (L(phdos()[:, 0].copy()), L(phdos()[:, 1].copy()), L(np.array([0., 100, 900]))))])
op('thermo.funcs')(lambda L, d: [(thermo.coth, (L(X()),)), (thermo.debye_func, (L(X()),)), (thermo.einstein_func, (L(X()),)), (thermo.expansion, (L(X(5, 10, 900)), 2e-6, 300.0)), (thermo.debye_func, (2.0,))])
def gibbs(L, **kw):
    ax = np.linspace(3.6, 4.4, 7)
    a = dict(T=L(np.linspace(5, 300, 8)), P=L(np.array([0., 1., 2.])), etot=L(30 * (ax - 4) ** 2 - 2), phdos=[L(phdos(i)) for i in range(7)], axes_flat=L(ax), volfunc_ax=lambda x: x[0] ** 3, verbose=False)
    a.update(kw)
    return a
def nowarn(a):
    a.pop('verbose'); return a
op('thermo.Gibbs')(lambda L, d: [(lambda **k: thermo.Gibbs(**k).calc_G(calc_all=True), (), nowarn(gibbs(L))), (lambda **k: thermo.Gibbs(**k).calc_F(), (), nowarn(gibbs(L))), (lambda **k: thermo.Gibbs(**k).calc_H(), (), nowarn(gibbs(L)))])
op('mttk')(lambda L, d: [(mttk.particle_nhc_masses, (1e13, 300.), dict(nf=12)), (mttk.barostat_nhc_masses, (1e13, 300.)), (mttk.barostat_mass_w, (1e13, 300.), dict(nf=12)), (mttk.barostat_mass_wg, (1e13, 300.), dict(nf=12))])
VOL = np.linspace(30, 50, 9)
ENE = 1e-3 * (VOL - 41) ** 2 - 2e-5 * (VOL - 41) ** 3 - 5
op('eos.EosFit')(lambda L, d: (lambda v, e, q: (lambda f: [f(q), f(q, der=1), f.get_min(), f.pressure(q), f.bulkmod(q), dict(f.params)])(eos.EosFit(v, e)), (L(VOL.copy()), L(ENE.copy()), L(np.array([35., 42.])))))
op('eos.func')(lambda L, d: [(eos.Vinet().evaluate, (L(VOL.copy()), {'e0': -5., 'b0': .5, 'b1': 4., 'v0': 41.})), (eos.Vinet().deriv, (L(VOL.copy()), {'e0': -5., 'b0': .5, 'b1': 4., 'v0': 41.}), dict(der=2))])
op('kpath')(lambda L, d: [(kpath.kpath, (L(A((4, 3), 1)),), dict(N=7)), (kpath.get_path_norm, (L(A((4, 3), 1)),)), (kpath.SpecialPointsPath, (), dict(ks=L(A((3, 3), 1)), ks_frac=L(A((3, 3), 2)), symbols=['A', '$\\Gamma$', 'C']))])

# --- writers / text ------------------------------------------------------------------
op('pwscf.str')(lambda L, d: [(pwscf.atpos_str, (list(SY), L(frac()))), (pwscf.atpos_str, (list(SY), L(frac())), dict(zero_eps=True, eps=.1)), (pwscf.atpos_str_fast, (list(SY), L(frac()))), (pwscf.atspec_str, (['Al', 'N'], [1.0, 2.0], ['a.UPF', 'b.UPF'])),
    (pwscf.kpoints_str, ([2, 3, 4],)), (pwscf.kpoints_str_pwin, ([2, 3, 4],)), (pwscf.kpoints_str_pwin, (L(np.array([2, 3, 4])),), dict(shift=[1, 0, 1])), (pwscf.kpoints_str_pwin_full, ([1, 1, 1],)), (pwscf.kpoints_str_pwin_full, ([2, 1, 1],), dict(shift=[0, 1, 0], gamma=False)),
    (pwscf.bool2str, (True,)), (pwscf.ibrav2cell, (4, L(np.array([5., 1, 1.6, 0, 0, 0])))), (pwscf.ibrav2cell, (14, L(np.array([5., 1.1, 1.6, .1, .2, .3]))))])
op('common.text')(lambda L, d: [(common.str_arr, (L(A((3, 3), 1)),)), (common.str_arr, (L(A((3, 3), 1)),), dict(zero_eps=True, eps=.5)), (common.fix_eps, (L(A((3, 3), 1)),), dict(eps=.5)), (common.fix_eps, (L(A((3, 3), 1)),), dict(eps=.5, copy=False), (0,)), (common.seq2str, ([1, 2, 3],)),
    (common.str2seq, ('1 2 3',)), (common.str2tup, ('1 2 3',)), (common.frepr, (1.5,)), (common.frepr, (None,)), (common.frepr, (True,)), (common.frepr, ('abc',)), (common.dict2str, ({'b': 2, 'a': [1]},)), (common.dict2class, ({'b': 2, 'a': [1]},)), (common.is_seq, ([1],)), (lambda x: list(common.iflatten(x)), ([1, [2, (3, [4])]],)),
    (common.flatten, ([1, [2, (3, [4])]],)), (common.asseq, (3,)), (common.asseq, ([3],))])
op('common.pop')(lambda L, d: (common.pop_from_list, ([1, 2, 3, 4], [2, 4])))
op('common.template')(lambda L, d: [(common.template_replace, ('a XXXA b XXXB', {'XXXA': '1', 'XXXB': '2'}), dict(mode='txt', disp=False)), (common.template_replace, ('a %(A)s b %(B)i', {'A': 'x', 'B': 2}), dict(disp=False)),
    (common.template_replace, ('a XXXA b XXXA', {'XXXA': 1.5, 'XXXC': None}), dict(mode='txt', conv=True, disp=False, warn_mult_found=False, warn_not_found=False))])
op('comb')(lambda L, d: [(comb.nested_loops, ([[1, 2], ['a', 'b']],)), (comb.nested_loops, ([[1, 2], [('a', 1), ('b', 2)]],), dict(flatten=True)), (comb.unique2d, (L(np.array([[1, 2], [1, 2], [3, 4]])),)), (comb.unique2d, (L(np.array([[1, 1, 3], [2, 2, 4]])),), dict(what='col'))])
op('sql.columns')(lambda L, d: [(sql.sql_column, ('k', [1, 2])), (sql.sql_column, ('k', [1.5, 2.5]), dict(sqlval_func=lambda x: 2 * x)), (sql.sql_matrix, ([[1, 'a'], [2, 'b']],), dict(colnames=['x', 'y'])), (sql.sql_matrix, ([[1, 'a'], [2, 'b']],), dict(header=[('x', 'integer'), ('y', 'TEXT')], fileval_funcs={'y': str.upper})),
    (sql.fix_sql_header, ([('a', 'Integer'), ('b', 'text')],)), (sql.find_sqltype, (1.5,)), (sql.find_sqltype, ('x',))])
def db_ops(fn, header, rows, extra):
    db = sql.SQLiteDB(fn, table='calc')
    db.create_table(header)
    for r in rows:
        db.execute('insert into calc (%s) values (?,?)' % ','.join(h[0] for h in header), tuple(r))
    db.add_columns(extra)
    db.fill_column(extra[0][0], [5, 6])
    db.attach_column('new', [1, 2, 3, 4], sqltype='INTEGER')
    out = [db.get_header(), db.get_list1d('select a from calc'), db.get_array('select a,%s from calc' % extra[0][0]).tolist(), db.get_dict('select a,b from calc'), db.get_max_rowid(), db.has_column('q'), db.has_table('zz')]
    db.finish()
    return out
op('sql.db')(lambda L, d: (db_ops, (os.path.join(d, 'x.db'), [('a', 'INTEGER'), ('b', 'TEXT')], [[1, 'x'], [2, 'y']], [('c', 'INTEGER'), ('e', 'FLOAT')])))
op('sql.makedb')(lambda L, d: (lambda fn, l, c: (sql.makedb(fn, l, c, table='t', mode='w'), sql.SQLiteDB(fn, table='t').get_dict('select * from t'))[1], (os.path.join(d, 'y.db'), [[1, 'a', 2.5], [2, 'b', 3.5]], ['i', 's', 'f'])))
op('batch.conv_table')(lambda L, d: [(batch.conv_table, ([1, 2, 3], [3., 2., 1.]), dict(mode=m, orig=o, absdiff=a)) for m in ('last', 'next') for o in (0, 1) for a in (0, 1)] + [(batch.conv_table, (['a', 'b', 'c'], L(A((2, 3), 1))))])
op('batch.defaults')(lambda L, d: (batch.default_repl_keys, ()))
def tree(d):
    out = {}
    for r, dd, ff in os.walk(d):
        for f in ff:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read() if not f.endswith('.db') else b'db'
    return out
def study(d, templates, params, mkw, skw):
    m = [batch.Machine(**k) for k in mkw]
    t = [batch.FileTemplate(basename=b, txt=x) for b, x in templates]
    s = batch.ParameterStudy(machines=m, templates=t, params_lst=params, calc_root=os.path.join(d, 'root'), **skw)
    s.write_input()
    s.write_input()
    db = sql.SQLiteDB(os.path.join(d, 'root', 'calc.db'), table='calc')
    return [tree(os.path.join(d, 'root')), [[str(x) for x in r[:3]] for r in db.execute('select idx,revision,p from calc')]]
def plst():
    return comb.nested_loops([sql.sql_column('p', [1, 2]), sql.sql_column('q', ['a', 'b'])])
op('batch.study')(lambda L, d: (study, (d, [('in.txt', 'p=XXXP q=XXXQ i=XXXIDX r=XXXREVISION'.replace('XXXP', 'XXXp').replace('XXXQ', 'XXXq'))], plst(), [dict(hostname='h1', template=batch.FileTemplate(basename='job.h1', txt='j XXXIDX'), home='/h', scratch='/s'), dict(hostname='h2', template=batch.FileTemplate(basename='job.h2', txt='j2'), home='/h', scratch='/s')], {})))
op('batch.calc')(lambda L, d: (lambda d, params, tm: (lambda c: (c.write_input(), tree(os.path.join(d, 'cc')), {k: (v.sqlval, v.sqltype) for k, v in c.get_sql_record().items()}))(
    batch.Calculation(machine=batch.Machine(hostname='hx', template=batch.FileTemplate(basename='job', txt='XXXFOO')), templates=tm, params=params, calc_dir=os.path.join(d, 'cc'))), (d, [sql.SQLEntry(key='FOO', sqlval=3.5)], [batch.FileTemplate(basename='a', txt='XXXFOO')])))
op('batch.calc_default')(lambda L, d: (lambda d, params: (lambda c: (c.write_input(), tree(os.path.join(d, 'cd'))))(
    batch.Calculation(machine=batch.Machine(hostname='hx', template=batch.FileTemplate(basename='job', txt='XXXFOO')), params=params, calc_dir=os.path.join(d, 'cd'))), (d, [sql.SQLEntry(key='FOO', sqlval=3.5)])))
op('batch.calc_default2')(lambda L, d: (lambda d, params: (lambda c: (c.write_input(), tree(os.path.join(d, 'ce'))))(
    batch.Calculation(machine=batch.Machine(hostname='hy', template=batch.FileTemplate(basename='job2', txt='2XXXFOO')), params=params, calc_dir=os.path.join(d, 'ce'))), (d, [sql.SQLEntry(key='FOO', sqlval=4.5)])))
op('batch.template')(lambda L, d: (lambda d, dct: (os.makedirs(os.path.join(d, 'q')), batch.FileTemplate(basename='t', txt='XXXA XXXB', keys=['A', 'B']).write(dct, os.path.join(d, 'q')), tree(os.path.join(d, 'q'))), (d, {'A': '1', 'B': 2})))
op('batch.Case')(lambda L, d: (lambda **k: batch.Case(**k), (), dict(x=[1, 2], y={'a': 1})))

def wr(fn, d, name, *a, **k):
    p = os.path.join(d, name)
    fn(p, *a, **k)
    with open(p, 'rb') as f:
        return f.read()
op('io.write')(lambda L, d: [(lambda s: wr(io.write_cif, d, 'a.cif', s), (struct(L),)), (lambda s: wr(io.write_xyz, d, 'a.xyz', s), (traj(L),)), (lambda s: wr(io.write_axsf, d, 'a.axsf', s), (traj(L),)), (lambda s: wr(io.write_axsf, d, 'b.axsf', s), (struct(L),)),
    (lambda s: wr(io.write_lammps, d, 'lmp.struct', s).split(b'\n', 1)[1], (struct(L),)), (lambda s: io.wien_sgroup_input(s), (struct(L),)), (lambda s: wr(io.write_wien_sgroup, d, 'w', s), (struct(L),))])
def h5rt(d, name, dct):
    io.write_h5(os.path.join(d, name), dct, mode='w')
    return io.read_h5(os.path.join(d, name))
op('io.h5')(lambda L, d: (h5rt, (d, 'x.h5', {'/a/b': L(A((2, 3), 1)), 'c': 5, '/d': 'txt'})))
op('io.pickle')(lambda L, d: [(lambda s: (s.dump(os.path.join(d, 'p.pk')), io.read_pickle(os.path.join(d, 'p.pk')))[1], (traj(L),)), (lambda s: (s.dump(os.path.join(d, 's.pk')), common.cpickle_load(os.path.join(d, 's.pk')))[1], (struct(L),))])
op('io.cif')(lambda L, d: (lambda s: (io.write_cif(os.path.join(d, 'r.cif'), s), io.read_cif(os.path.join(d, 'r.cif')))[1], (struct(L),)))
op('arrayio')(lambda L, d: [(lambda a, ax: [wr(arrayio.writetxt, d, 'arr%i' % ax, a, axis=ax), arrayio.readtxt(os.path.join(d, 'arr%i' % ax))], (L(A((2, 3, 4), 1)), ax)) for ax in (0, 1, 2)] + [(lambda a: [wr(arrayio.writetxt, d, 'arr2', a), arrayio.readtxt(os.path.join(d, 'arr2'))], (L(A((3, 4), 1)),)),
    (arrayio.arr2d_to_3d, (L(A((6, 4), 1)), (2, 3, 4)), dict(axis=0))])
op('parse.txt')(lambda L, d: [(parse.traj_from_txt, (' '.join(str(i) for i in range(12)), (2, 2, 3))), (parse.arr1d_from_txt, ('1 2 3',)), (parse.arr2d_from_txt, ('1 2\n3 4',)), (parse.axis_lens, ([L(A((2, 3), 1)), L(A((4, 3), 1)), None],)), (parse.int_from_txt, ('3',)), (parse.float_from_txt, ('3.5',)), (parse.nstep_from_txt, ('3',))])

# --- parsers --------------------------------------------------------------------------
T = outgen.THERMO
DU = ['id', 'type', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz', 'vx', 'vy', 'vz', 'xsu', 'ysu', 'zsu']
USES = [('pw_scf', dict(nat=2, miss=[], extra=1)), ('pw_scf', dict(nat=1, miss=['forces', 'stress'], use_alat=False, cs=3)),
        ('pw_md', dict(nat=2, ns=2, miss=[], cunit='(alat)', lunit='(alat= Y)')), ('pw_md', dict(nat=1, ns=1, miss=['forces'], cunit='crystal', lunit='bohr', vcmd=1)),
        ('cpmd_scf', dict(nat=2, miss=[])), ('cpmd_md', dict(nat=1, ns=2, ncol=9, cellfile=1, stress=1, ftraj=1, miss=[])),
        ('cp2k_scf', dict(nat=2, miss=[])), ('cp2k_md', dict(nat=2, ns=2, miss=[])), ('cp2k_md', dict(nat=1, ns=2, miss=[], relax='CELL_OPT')),
        ('cp2k_md', dict(nat=1, ns=2, miss=[], dcd=1)), ('lammps', dict(nat=2, ns=2, thermo=T, dump=DU, box='tri', symbols='file', miss=[])),
        ('lammps', dict(nat=2, ns=2, thermo=T, dump=None, dcd=1, symbols=None, miss=[]))]
def parse_run(d, k, units):
    sub = os.path.join(d, 'out%i' % k)
    os.makedirs(sub, exist_ok=True)
    cls, fn, raw, opt = outgen.GEN[USES[k][0]](sub, dict(USES[k][1]))
    opt = dict(opt)
    if units:
        opt['units'] = units
    pa = getattr(parse, cls)(fn, **opt)
    obj = pa.get_struct() if 'SCF' in cls else pa.get_traj()
    return [obj.attr_lst, {a: getattr(obj, a) for a in obj.attr_lst if a not in ('spglib', 'ase_atoms', 'fake_ase_atoms')}, {a: getattr(pa, a) for a in pa.attr_lst}]
for k in range(len(USES)):
    OPS['parse.%i.%s' % (k, USES[k][0])] = lambda L, d, k=k: (parse_run, (d, k, {}))
    if k in (0, 3, 5, 8, 10):
        OPS['parse.%i.%s.units' % (k, USES[k][0])] = lambda L, d, k=k: (parse_run, (d, k, {'length': 2.0, 'energy': 3.0, 'stress': .5, 'time': 7.0}))
def dcd_op(L, d):
    p = os.path.join(d, 'x.dcd')
    an = np.array([[60., 70, 80], [61., 70, 80]])
    with open(p, 'wb') as f:
        f.write(outgen.dcd_bytes(A((2, 3, 3), 1), np.array([[4., 5, 6], [4., 5, 6]]), an, 2, .5))
    return [(dcd.read_dcd_header, (p,)), (dcd.read_dcd_data, (p,)), (dcd.read_dcd_data, (p,), dict(convang=True)), (dcd.read_dcd_data_ref, (p,)), (dcd.read_dcd_data_f, (p,)), (dcd.read_dcd_data_f, (p,), dict(convang=True, nstephdr=True))]
OPS['dcd'] = dcd_op

# --- rbf, mpl, symmetry, random ---------------------------------------------------------
P2, V2 = lambda: A((12, 2), 1), lambda: (A((12, 2), 1) ** 2).sum(1)
op('rbf.Rbf')(lambda L, d: [(lambda p, v, q: (lambda r: [r(q), r.deriv(q), r.fit_error(p, v), list(r.get_params())])(rbf.Rbf(p, v, rbf=k, r=rr, p=pp)), (L(P2()), L(V2()), L(A((3, 2), 5)))) for k, rr, pp in [('gauss', 0, 'mean'), ('multi', 1e-6, 'scipy'), ('inv_multi', None, 1.5)]])
op('rbf.funcs')(lambda L, d: [(rbf.squared_dists, (L(P2()), L(A((3, 2), 5)))), (rbf.euclidean_dists, (L(P2()), L(A((3, 2), 5)))), (rbf.estimate_p, (L(P2()),)), (rbf.estimate_p, (L(P2()),), dict(method='scipy'))])
op('rbf.fit_opt')(lambda L, d: [(lambda p, v, ok, rk: rbf_state(hyperopt.fit_opt(p, v, method='fmin', what='p', cv=None, opt_kwds=ok, rbf_kwds=rk)), (L(P2()), L(V2()), {'x0': [1.0], 'disp': False, 'maxiter': 8}, {'rbf': 'gauss', 'r': 1e-6})),
    (lambda p, v, ok, rk, cv: rbf_state(hyperopt.fit_opt(p, v, method='brute', what='pr', cv=cv, opt_kwds=ok, rbf_kwds=rk)), (L(P2()), L(V2()), {'ranges': [(.5, 2), (1e-8, 1e-4)], 'Ns': 3, 'finish': None}, {'rbf': 'multi'}, dict(n_splits=3, n_repeats=1, random_state=1))),
    (lambda p, v, ok: rbf_state(hyperopt.fit_opt(p, v, method='brute', what='p', cv=None, opt_kwds=ok)), (L(P2()), L(V2()), {'Ns': 3, 'finish': None}))])
def rbf_state(r):
    return [r.p, r.r, r.w]
op('rbf.FitError')(lambda L, d: [(lambda p, v, rk: (lambda f: [f([1.0]), f.err_direct([1.0])])(hyperopt.FitError(p, v, rbf_kwds=rk, cv=None)), (L(P2()), L(V2()), {'r': 1e-6})),
    (lambda p, v, cv: hyperopt.FitError(p, v, cv=cv)([1.0, 1e-6]), (L(P2()), L(V2()), dict(n_splits=3, n_repeats=1, random_state=1)))])
def d2state(o):
    return {k: getattr(o, k) for k in ('x', 'y', 'xx', 'yy', 'zz', 'X', 'Y', 'Z', 'XY', 'nx', 'ny')}
def d2up(x, y, z, z2):
    o = mpl.Data2D(x=x, y=y, zz=z)
    c = o.copy()
    c.update(zz=z2)
    return [d2state(o), d2state(c)]
op('mpl.Data2D')(lambda L, d: [(d2up, (L(X(3)), L(X(2)), L(A(6, 1)), L(A(6, 2)))), (lambda xx, yy, zz: d2state(mpl.Data2D(xx=xx, yy=yy, zz=zz)), (L(np.repeat(X(3), 2)), L(np.tile(X(2), 3)), L(A(6, 1)))), (lambda X_, Y_, Z_: d2state(mpl.Data2D(X=X_, Y=Y_, Z=Z_)), (*map(L, num.meshgridt(X(3), X(2))), L(A((3, 2), 1)))),
    (lambda XY, Z: d2state(mpl.Data2D(XY=XY, Z=Z)), (L(np.array([np.repeat(X(3), 2), np.tile(X(2), 3)]).T.copy()), L(A((3, 2), 1))))])
op('mpl.util')(lambda L, d: [(mpl.get_2d_testdata, (4,)), (mpl.smooth_color, (2, 5)), (mpl.meshgridt, (L(X(3)), L(X(4))))])
op('symmetry')(lambda L, d: [(symmetry.spglib_get_spacegroup, (struct(L),)), (symmetry.is_same_struct, (struct(L), struct(L))), (symmetry.spglib_get_primitive, (crys.scell(struct(L), (2, 1, 1)),)), (symmetry.struct2spglib, (struct(L),)), (symmetry.spglib2struct, ((L(CELL.copy()), L(frac()), [13, 7, 7, 8]),))])
op('random')(lambda L, d: [(lambda s, **k: prandom.random_struct(s, **k), (['Si', 'O', 'O'],), dict(angle_range=[70., 110.], vol_range_scale=[.8, 1.2], length_range_scale=[.8, 1.2]))])

# --- options away from their defaults (the default call first: an option must not stick) -----
def cap(fn, *a, **k):
    """captured output"""
    import contextlib, io as _io
    with contextlib.redirect_stdout(_io.StringIO()) as so:
        r = fn(*a, **k)
    return [r, so.getvalue()]
def files(d, sub, fn):
    """result of fn(directory) and all files in it"""
    p = os.path.join(d, sub)
    os.makedirs(p)
    return [fn(p), tree(p)]
def put(d, name, txt):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(txt)
    return p
def cpath():
    return crys, num

op('opt.common')(lambda L, d: [(common.frepr, (1.5,), k) for k in ({}, dict(ffmt='%.3f'))] + [(common.seq2str, ([1, 2],), k) for k in ({}, dict(func=repr), dict(sep=','))] + [(common.str2seq, ('1 2',), k) for k in ({}, dict(func=float))] +
    [(common.str2seq, ('1,2',), dict(sep=',')), (common.str2tup, ('1,2',), dict(sep=',', func=float)), (common.ffloat, ('1.5d+02_10',)), (common.tobool, ('.true.',)), (common.tobool, (0,)), (common.toslice, ('1:3',)), (common.toslice, ('::2',)),
    (common.print_dct, ({'b': 2, 'a': [1]},)), (lambda **k: (lambda c: (type(c).__name__, vars(c)))(common.dict2class({'a': 1}, **k)), (), {}), (lambda **k: (lambda c: (type(c).__name__, vars(c)))(common.dict2class({'a': 1}, **k)), (), dict(name='Other')),
    (common.str_arr, (L(A((2, 3), 1)),)), (common.str_arr, (L(A((2, 3), 1)),), dict(fmt='%.2f', delim=';')), (common.str_arr, (L(A(3, 1)),), dict(fmt='%.3g')),
    (lambda txt: files(d, 'ft', lambda p: common.file_template_replace(put(p, 'f', txt), {'XXXA': '1'}, mode='txt', disp=False)), ('a XXXA',)), (lambda txt: files(d, 'ft2', lambda p: common.file_template_replace(put(p, 'f', txt), {'XXXA': '1'}, bak='.bak', mode='txt', disp=False)), ('a XXXA',)),
    (lambda: files(d, 'bk', lambda p: (common.backup(put(p, 'f', 'x')), put(p, 'f', 'y'), common.backup(os.path.join(p, 'f'), prefix='~'), put(p, 'f', 'z'), common.backup(os.path.join(p, 'f')))[:0]), ()),
    (lambda cfg: (lambda c: {s: dict(c[s]) for s in c.sections()})(common.add_to_config(mkcfg(), cfg)), ({'one': {'a': '1', 'b': 'x'}, 'new': {'c': '2.5'}},)),
    (lambda: common.file_readlines(put(d, 'rl', 'a\nb\n')), ())])
def mkcfg():
    import configparser
    c = configparser.ConfigParser()
    c.add_section('sec')
    return c

op('opt.crys')(lambda L, d: [(crys.cc2celldm, (L(CCV.copy()),), k) for k in ({}, dict(fac=1.8))] + [(crys.celldm2cc, (L(np.array([5.0, 1.2, 1.3, .1, .2, .3])),), k) for k in ({}, dict(fac=.5))] +
    [(crys.scell_mask, (2, 1, 2), k) for k in ({}, dict(direc=-1))] + [(crys.velocity_traj, (L(A((5, 3, 3), 1)),), k) for k in ({}, dict(axis=0, endpoints=False, dt=2.0))] +
    [(crys.volume_cc3d, (L(np.array([CCV, 1.1 * CCV])),)), (crys.volume_cc3d, (L(np.array([CCV, 1.1 * CCV]).T.copy()),), dict(axis=1))] +
    [(crys.coord_trans3d, (L(np.array([frac(0), frac(1)])),), dict(old=L(np.array([CELL, 2 * CELL])), new=L(np.array([np.identity(3)] * 2)))), (crys.coord_trans3d, (L(np.array([frac(0), frac(1)])),), dict(old=L(np.array([CELL, 2 * CELL])), new=L(np.array([np.identity(3)] * 2)), copy=False), (0,))] +
    [(crys.nearest_neighbors, (struct(L),), dict(k, idx=1, cutoff=4.0)) for k in ({}, dict(pbc=False), dict(sort=False), dict(skip='N'), dict(fullout=True))] + [(crys.nearest_neighbors_from_dists, (L(crys.distances(struct())), list(SY)), dict(k, idx=1, cutoff=4.0)) for k in ({}, dict(sort=False), dict(skip=['N', 'O']))] +
    [(crys.pbc_wrap, (struct(L),), k) for k in ({}, dict(mask=[True, False, False]))] + [(crys.pbc_wrap, (struct(L),), dict(copy=False), (0,))] +
    [(crys.rpdf, (traj(L),), dict(k, dr=.2, rmax=3.0)) for k in ({}, dict(pbc=False), dict(maxmem=5.0), dict(amask=[['Al', 'N'], 'O'] if 0 else ['Al', 'O']), dict(tmask=slice(1, 3)), dict(dmask='{d}<2.0'))] +
    [(crys.align_cart, (struct(L),), dict(k, vecs=L(np.array([[.1, .2, .3], [1.1, .2, .3], [.1, .2, 2.3]])))) for k in ({}, dict(eps=1e-3))] + [(crys.align_cart, (struct(L),), dict(indices=[0, 1, 2], eps=9.0)), (crys.align_cart, (struct(L),), dict(indices=[3, 1, 2], eps=9.0))] +
    [(lambda s, **k: s.compress(**k), (struct(L),), k, (0,)) for k in ({}, dict(forget=['forces']), dict(dtype=np.float32))] + [(lambda t, k: (lambda n: {a: getattr(n, a) for a in ('coords', 'cell', 'forces', 'nstep')})(t.get_traj(k)), (struct(L), 2)), (lambda s: (lambda f: [f.get_scaled_positions(), f.get_cell(), f.get_atomic_numbers(), f.get_magnetic_moments(), f.get_positions() if hasattr(f, 'get_positions') else 0])(s.get_fake_ase_atoms()), (struct(L),)),
    (lambda t: [s.coords for s in t], (traj(L),)), (lambda t: (next(t).coords, next(t).coords, next(t[1:3]).coords), (traj(L),), {}, (0,))])

op('opt.num')(lambda L, d: [(num.euler_matrix, (.1, .2, .3)), (num.euler_matrix, (10., 20., 30.), dict(deg=True)), (num.norm_int, (L(Y()), L(X()))), (num.norm_int, (L(Y()), L(X())), dict(func=np.trapz if hasattr(np, 'trapz') else _trapz)), (num.rms, (L(A((3, 4), 1)),)), (num.rms, (L(A((3, 4), 1)),), dict(nitems=5)),
    (num.rms3d, (L(A((3, 4, 2), 1)),)), (num.rms3d, (L(A((3, 4, 2), 1)),), dict(axis=2, nitems=4))] + [(num.order_similar, (L(np.sort(A((6, 3), 1), axis=1)),), k) for k in ({}, dict(repeat=2), dict(order=1), dict(repeat=3, order=0))] +
    [(lambda x, y, q, k: num.Spline(x, y, **k)(q), (L(X()), L(Y()), L(X(4, 1, 3)), k)) for k in ({}, dict(k=2), dict(eps=1e-3), dict(s=.5, checkeps=False), {})] + [(lambda x, y, k: num.Spline(x, y).invsplev(1.0, **k), (L(X()), L(Y()), k)) for k in (dict(xab=[2.2, 3.9]), dict(x0=3.0))] + [(lambda x, y: num.Spline(x, y).splev(L(X(3, 1, 3))), (L(X()), L(Y())))] +
    [(num.findroot, (L(X()), L(X() - 2.0)))] + [(num.deriv_spl, (L(Y()),), k) for k in ({}, dict(n=2), dict(k=5), dict(s=.5))] + [(lambda x, y, k: num.PolyFit1D(x, y, deg=5).get_min(**k), (L(X()), L(Y()), k)) for k in ({}, dict(x0=2.0), dict(xab=[1., 3.]))] +
    [(lambda x, y, k: num.PolyFit1D(x, y - 1, deg=5).get_root(**k), (L(X()), L(Y()), k)) for k in (dict(xab=[2.2, 3.9]), dict(x0=3.2))] + [(lambda x, y, k: num.PolyFit1D(x, -y, deg=5).get_max(**k), (L(X()), L(Y()), k)) for k in ({}, dict(x0=2.0), dict(xab=[1., 3.]))] +
    [(lambda q, k: num.Interpol2D(dd=mpl.Data2D(x=np.linspace(0, 1, 6), y=np.linspace(0, 1, 7), zz=np.arange(42.) ** 1.5), **k)(q), (L(A((3, 2), 5, .2, .8)), k)) for k in (dict(what='bispl'), dict(what='bispl', kx=1, ky=1), dict(what='bispl', s=4.0), dict(what='bispl'), dict(what='poly', deg=3), dict(what='poly', deg=4), {}, dict(p=2.0), dict(r=1e-3), dict(what='ct'), dict(what='ct', tol=1e-3))] +
    [(lambda xx, yy, z: (lambda i: [i(L(A((3, 2), 5, -.4, .4))), i.get_min(x0=np.array([.1, .1]))])(num.Interpol2D(xx=xx, yy=yy, values=z, what='poly', deg=3)), (L(A((25, 2), 1)[:, 0].copy()), L(A((25, 2), 1)[:, 1].copy()), L((A((25, 2), 1) ** 2).sum(1))))] +
    [(lambda a, ax: (lambda o: sorted(vars(o)))(num.DataND(an=a, axes=ax)), (L(A((3, 2), 1)), [L(X(3)), L(X(2))]))])
def _trapz(y, x):
    return ((y[1:] + y[:-1]) / 2 * np.diff(x)).sum()

op('opt.signal')(lambda L, d: [(signal.fftsample, (2.0, .01)), (signal.fftsample, (2.0, .01), dict(mirr=True)), (signal.fftsample, (.1, 50), dict(mode='t')), (signal.fftsample, (.1, 50), dict(mode='t', mirr=True))] + [(signal.find_peaks, (L(np.sin(np.linspace(0, 12, 60))),), k) for k in ({}, dict(k=5, spread=3), dict(ymin=.5))] +
    [(signal.lorentz, (9,), k) for k in ({}, dict(std=2.0), dict(sym=False))] + [(signal.welch, (8,), k) for k in ({}, dict(sym=0))] + [(signal.odd, (3,), k) for k in ({}, dict(add=-1))] + [(signal.mirror, (L(A((4, 2), 1)),), k) for k in ({}, dict(axis=1))] +
    [(signal.pad_zeros, (L(A((5, 3), 1)),), k) for k in (dict(nadd=2), dict(tonext=True), dict(tonext=True, tonext_min=11), dict(tonext=True, tonext_min=11, where='start'))] + [(signal.gauss, (L(X()),), k) for k in ({}, dict(std=2.0), dict(norm=True))] +
    [(lambda x, k, c: signal.FIRFilter(cutoff=.2, nyq=1.0, ntaps=9, **k)(x, **c), (L(A((40, 41), 1)), k, c)) for k, c in [({}, {}), (dict(window='boxcar'), {}), (dict(mode='highpass'), {}), ({}, dict(axis=0)), ({}, {})]] +
    [(signal.scale, (L(A(6, 1)),), k) for k in ({}, )] + [(signal.dft, (L(A(8, 1)),), k) for k in ({}, dict(method='loop'), dict(method='matmul'))] + [(signal.acorr, (L(A(9, 1)),), k) for k in ({}, dict(method=3), dict(norm=False))])
op('opt.pydos')(lambda L, d: [(pydos.pdos, (L(A((16, 3, 3), 1)),), k) for k in ({}, dict(area=3.0), dict(tonext=True), dict(tonext=True, npad=1), dict(window=False), dict(method='vacf', mirr=True), dict(full_out=True), {})] + [(pydos.direct_pdos, (L(A((16, 3, 3), 1)),), k) for k in ({}, dict(npad=1), dict(npad=1, tonext=True))] + [(pydos.pyvacf, (L(A((6, 3, 3), 1)),), k) for k in ({}, dict(method=1))])
op('opt.thermo')(lambda L, d: [(lambda f, g, T, k: (lambda h: [h.evib(), h.cv(), h.fvib(), h.svib()])(thermo.HarmonicThermo(f, g, T=T, verbose=False, **k)), (L(phdos()[:, 0].copy()), L(phdos()[:, 1].copy()), L(np.array([5., 100, 900])), k)) for k in ({}, dict(dosarea=3.0), dict(skipfreq=True, eps=200.0), dict(integrator=_trapz2), dict(fixnan=True, nanfill=1.0), {})] +
    [(lambda f, g, T: (lambda h: [h.vibrational_internal_energy(), h.isochoric_heat_capacity(), h.vibrational_free_energy(), h.vibrational_entropy()])(thermo.HarmonicThermo(f, g, temp=T, verbose=False)), (L(phdos()[:, 0].copy()), L(phdos()[:, 1].copy()), L(np.array([5., 100, 900]))))] +
    [(thermo.debye_func, (L(X()),), k) for k in ({}, dict(nstep=50), dict(zero=1e-3))] + [(thermo.expansion, (L(X(5, 10, 900)), 2e-6, 300.0), k) for k in ({}, dict(x0=3.0), dict(func=thermo.einstein_func))])
def _trapz2(y, x, axis=-1):
    return (np.moveaxis((np.take(y, range(1, y.shape[axis]), axis) + np.take(y, range(y.shape[axis] - 1), axis)) / 2, axis, -1) * np.diff(x)).sum(-1)
op('opt.gibbs')(lambda L, d: [(lambda **k: thermo.Gibbs(**k).calc_G(), (), nowarn(gibbs(L))), (lambda **k: thermo.Gibbs(**k).calc_G(calc_all=False), (), nowarn(gibbs(L, case='1d'))), (lambda **k: thermo.Gibbs(**k).calc_F(calc_all=False), (), nowarn(gibbs(L))), (lambda **k: thermo.Gibbs(**k).calc_H(calc_all=False), (), nowarn(gibbs(L))),
    (lambda **k: thermo.Gibbs(**k).calc_G(ret=thermo.Gibbs(**k).calc_F()), (), nowarn(gibbs(L))),
    (lambda **k: (lambda g: (g.set_fitfunc('1d-G', lambda x, y: num.PolyFit1D(x, y, deg=3)), g.calc_G(calc_all=True)))(thermo.Gibbs(**k))[1], (), nowarn(gibbs(L))), (lambda **k: thermo.Gibbs(**k).calc_G(calc_all=True), (), nowarn(gibbs(L)))])
op('opt.mttk')(lambda L, d: [(mttk.particle_nhc_masses, (1e13, 300.), dict(k, nf=12)) for k in ({}, dict(nnos=2))] + [(mttk.barostat_nhc_masses, (1e13, 300.), k) for k in ({}, dict(nnos=2), dict(ndim=2))] + [(f, (1e13, 300.), dict(k, nf=12)) for f in (mttk.barostat_mass_w, mttk.barostat_mass_wg) for k in ({}, dict(ndim=2))])
op('opt.eos')(lambda L, d: [(lambda v, e, q, k: (lambda f: [f(q), f.get_min(), f.pressure(q), f.bulkmod(q), dict(f.params)])(eos.EosFit(v, e, **k)), (L(VOL.copy()), L(ENE.copy()), L(np.array([35., 42.])), k)) for k in ({}, dict(splpoints=100), dict(func=eos.Vinet()), {})] + [(lambda v, e: eos.EosFit(v, e).get_min(), (L(VOL.copy()), L(ENE.copy())))])
op('opt.kpath')(lambda L, d: [(kpath.kpath, (L(A((4, 3), 1)),), k) for k in ({}, dict(N=5))])
op('opt.io')(lambda L, d: [(lambda s, k: wr(lambda p: io.write_xyz(p, s, **k), d, 'o.xyz'), (struct(L), k)) for k in ({}, dict(name='abc'), {})] + [(lambda s, k: {q: v.split(b'\n', 1)[-1] for q, v in files(d, 'l%i' % len(k), lambda p: io.write_lammps(os.path.join(p, 'lmp.struct'), s, **k))[1].items()}, (struct(L), k)) for k in ({}, dict(symbolsbasename='sy'))] +
    [(io.wien_sgroup_input, (struct(L),), k) for k in ({}, dict(lat_symbol='F'))] + [(lambda s: wr(io.write_xyz, d, 't.xyz', s), (traj(L),)), (lambda dct: (io.write_h5(os.path.join(d, 'q.h5'), dct), io.load_h5(os.path.join(d, 'q.h5')))[1], ({'/a/b': L(A(3, 1))},)),
    (lambda dct: (io.write_h5(os.path.join(d, 'm.h5'), dct), io.write_h5(os.path.join(d, 'm.h5'), {'/x': 1}), io.write_h5(os.path.join(d, 'm.h5'), {'/y': 2}, mode='w') if 0 else None, io.read_h5(os.path.join(d, 'm.h5')))[3], ({'/a/b': L(A(3, 1))},)),
    (lambda t: (os.makedirs(os.path.join(d, 'sub')), t.dump(os.path.join(d, 'sub', 'deep', 'p.pk'), mkdir=True), io.read_pickle(os.path.join(d, 'sub', 'deep', 'p.pk')))[2], (traj(L),)),
    (lambda s: (s.dump(os.path.join(d, 'lo.pk')), setload(os.path.join(d, 'lo.pk')))[1], (struct(L),))])
def setload(p):
    s = crys.Structure(set_all_auto=False)
    s.load(p)
    return vars(s)
op('opt.arrayio')(lambda L, d: [(lambda a, w, r: [wr(arrayio.writetxt, d, 'o', a, **w), arrayio.readtxt(os.path.join(d, 'o'), **r)], (L(A((2, 3, 4), 1)), w, r)) for w, r in [({}, {}), (dict(axis=0), {}), (dict(axis=1, header=False), dict(axis=1, shape=(2, 3, 4))), ({}, {}), ({}, dict(header_maxlines=30))]] +
    [(lambda a: [wr(arrayio.writetxt, d, 'o2', a), open(os.path.join(d, 'o2')).read().replace('#', '@'), put(d, 'o3', open(os.path.join(d, 'o2')).read().replace('#', '@')), arrayio.readtxt(os.path.join(d, 'o3'), header_comment='@', comments='@')][3], (L(A((2, 3, 4), 1)),))] +
    [(parse.traj_from_txt, (','.join(str(i) for i in range(12)), (2, 2, 3)), dict(sep=',', dtype=int)), (parse.traj_from_txt, (' '.join(str(i) for i in range(12)), (2, 3, 2)), dict(axis=0)), (parse.axis_lens, ([L(A((2, 3), 1)), L(A((4, 3), 1)), None],), dict(axis=1))])
op('opt.parse')(lambda L, d: [(lambda k: (lambda p: (lambda s: {a: getattr(s, a) for a in ('coords', 'cell', 'symbols')})(p.get_struct()))(parse.PDBFile(put(d, 'a.pdb', PDB), **k)), (k,)) for k in ({}, dict(units={'length': 2.0}))] +
    [(lambda k: (lambda p: [p.get_struct().coords, p.get_cont(auto_calc=False).attr_lst if 0 else 0])(parse.PDBFile(put(d, 'b.pdb', PDB), **k)), (k,)) for k in ({},)] +
    [(lambda k: (lambda p: (lambda s: {a: getattr(s, a) for a in ('coords', 'cell', 'symbols')})(p.get_struct()))(parse.CifFile(cif2(d), **k)), (k,)) for k in (dict(block='one'), dict(block='two'), dict(block='one', units={'length': 2.0}))] +
    [(lambda k: (lambda p: {a: getattr(p.get_cont(**k), a, 'missing') for a in ('coords', 'cell', 'symbols', 'volume', 'mass')})(parse.PDBFile(put(d, 'c.pdb', PDB))), (k,)) for k in ({}, dict(auto_calc=False))])
PDB = 'CRYST1    4.000    5.000    6.000  80.00  85.00  95.00 P 1\nATOM      1  N   LYS     1       1.000   2.000   3.000  1.00  0.00           N\nATOM      2  O   LYS     1       0.500   1.500   2.500  1.00  0.00           O\nEND\n'
def cif2(d):
    a = wr(io.write_cif, d, 'one.cif', struct()).decode()
    b = wr(io.write_cif, d, 'two.cif', struct(seed=2)).decode()
    import re
    return put(d, 'both.cif', re.sub(r'(?m)^data_\S*', 'data_one', a) + '\n' + re.sub(r'(?m)^data_\S*', 'data_two', b))
op('opt.pwscf')(lambda L, d: [(pwscf.atpos_str, (list(SY), L(frac())), k) for k in ({}, dict(fmt='%.3f'), dict(delim=' | '), dict(eps=.3), {})] + [(pwscf.kpoints_str, ([2, 3, 4],), k) for k in ({}, dict(base='q'))] + [(pwscf.kpoints_str_pwin, ([2, 3, 4],), k) for k in ({}, dict(shift=[1, 1, 0]))] + [(pwscf.kpoints_str_pwin_full, ([1, 1, 1],), k) for k in ({}, dict(gamma=False), dict(shift=[1, 0, 0]))] +
    [(pwscf.read_matdyn_modes, (put(d, 'modes', MODES),), k) for k in (dict(natoms=1),)] + [(pwscf.read_matdyn_freq, (put(d, 'freq', FREQ),))] + [(pwscf.read_dynmat_ir_raman, (put(d, 'dm', IRR),), k) for k in (dict(natoms=1), dict(natoms=1, cols={1: 'freqs', 3: 'ir'}))])
MODES = ' q = 0.1 0.2 0.3\n ****\n     omega( 1) = 1.0 [THz] = 33.0 [cm-1]\n ( 0.1 0.2 0.3 0.4 0.5 0.6 )\n     omega( 2) = 2.0 [THz] = 66.0 [cm-1]\n ( 0.7 0.2 0.3 0.4 0.5 0.6 )\n     omega( 3) = 3.0 [THz] = 99.0 [cm-1]\n ( 0.8 0.2 0.3 0.4 0.5 0.6 )\n ****\n'
FREQ = ' &plot nbnd=   3, nks=   2 /\n            0.100000  0.200000  0.300000\n   33.0000   66.0000   99.0000\n            0.500000  0.200000  0.300000\n   34.0000   67.0000   98.0000\n'
IRR = '\n mode   [cm-1]    [THz]      IR          Raman   depol.fact\n    1      0.00    0.0000    0.0001         0.0005    0.7414\n    2      1.00    0.1000    0.0002         0.0006    0.7415\n    3   1200.00   36.0000    0.5000         0.7000    0.1000\n'
op('opt.rbf')(lambda L, d: [(lambda p, v, q, k: (lambda r: [r(q), r.deriv(q)])(rbf.Rbf(p, v, **k)), (L(P2()), L(V2()), L(A((3, 2), 5)), k)) for k in ({}, dict(r=1e-3), dict(p=2.0), dict(rbf='inv_multi'), {})] + [(lambda p, v: (lambda r: [r.p, r.w is None if hasattr(r, 'w') else 'none', r.fit(), r.w, repr(r)][:4])(rbf.Rbf(p, v, fit=False)), (L(P2()), L(V2())))] +
    [(lambda p, v, k: hyperopt.FitError(p, v, **k)([1.0, 1e-6]), (L(P2()), L(V2()), k)) for k in (dict(cv=None), dict(cv=dict(n_splits=3, n_repeats=1, random_state=1)), dict(cv=dict(n_splits=3, n_repeats=2, random_state=1)))] + [(lambda p, v, k: hyperopt.FitError(p, v, **k)([1.0, 1e-6]), (L(P2()), L(V2()), dict(cv_kwds=dict(n_splits=4, n_repeats=1, random_state=1)))), (lambda p, v, k: hyperopt.FitError(p, v, **k)([1.0, 1e-6]), (L(P2()), L(V2()), {}))])
def db2(fn):
    db = sql.SQLiteDB(fn, table='one')
    db.create_table([('a', 'INTEGER'), ('b', 'INTEGER')])
    db.create_table([('x', 'INTEGER')], table='two')
    for i in range(4):
        db.execute('insert into one (a) values (?)', (i,))
        db.execute('insert into two (x) values (?)', (i,))
    db.fill_column('b', [7, 8])
    db.fill_column('b', [5, 6], start=3)
    db.fill_column('b', [1], start=2, overwrite=True)
    db.fill_column('b', [9, 9], start=4, extend=False, overwrite=True)
    db.add_columns([('y', 'TEXT')], table='two')
    db.attach_column('z', [1, 2], sqltype='INTEGER', table='two')
    db.attach_column('zz', [1, 2], sqltype='INTEGER', table='two', start=2, extend=False)
    out = [db.get_header(), db.get_header(table='two'), db.get_array1d('select a from one').tolist(), db.execute('select * from one').fetchall(), db.execute('select * from two').fetchall(), db.get_table()]
    db.set_table('two')
    out += [db.get_table(), db.get_header(), db.get_max_rowid()]
    db.executemany('insert into two (x) values (?)', [(5,), (6,)])
    db.executescript('create table three (q INTEGER); insert into three values (3);')
    out += [db.get_list1d('select x from two'), db.get_list1d('select q from three')]
    db.finish()
    return out
op('opt.sql')(lambda L, d: [(db2, (os.path.join(d, 'two.db'),)), (lambda fn, l, c: (lambda db: [db.get_dict('select * from t'), db.finish()])(sql.makedb(fn, l, c, table='t', mode='w', close=False)), (os.path.join(d, 'nc.db'), [[1, 'a'], [2, 'b']], ['i', 's'])),
    (lambda fn, l, c: (sql.makedb(fn, l, c, table='t'), sql.makedb(fn, l, c, table='t'), sql.SQLiteDB(fn, table='t').get_dict('select * from t'))[2], (os.path.join(d, 'ap.db'), [[1, 'a'], [2, 'b']], ['i', 's']))] +
    [(sql.sql_column, ('k', [1, 2]), k) for k in ({}, dict(sqltype='FLOAT'), dict(fileval_func=hex), {})] + [(sql.sql_matrix, ([[1, 'a'], [2, 'b']],), dict(k, colnames=['x', 'y'])) for k in ({}, dict(sqlval_funcs={'x': hex}), dict(fileval_funcs={'y': str.upper}), {})])
def study2(d, sub, kw, wkw):
    os.makedirs(os.path.join(d, sub))
    m = [batch.Machine(hostname='h1', subcmd='sb', template=batch.FileTemplate(basename='job.h1', txt='j XXXIDX XXXCALC_NAME'), home='/h', scratch='/s'), batch.Machine(hostname='h2', template=batch.FileTemplate(basename='job.h2', txt='j2'), home='/h')]
    s = batch.ParameterStudy(machines=m, templates=[batch.FileTemplate(basename='in', txt='p=XXXp XXXREVISION XXXSTUDY_NAME')], params_lst=plst(), calc_root=os.path.join(d, sub), **kw)
    s.write_input(**wkw)
    s.write_input(**wkw)
    dbn, tab = kw.get('db_name', 'calc.db'), kw.get('db_table', 'calc')
    db = sql.SQLiteDB(os.path.join(d, sub, dbn), table=tab)
    return [tree(os.path.join(d, sub)), [list(map(str, r[:3])) for r in db.execute('select idx,revision,p from %s' % tab)]]
op('opt.study')(lambda L, d: [(study2, (d, 's%i' % i, kw, wkw)) for i, (kw, wkw) in enumerate([({}, {}), (dict(study_name='zz', db_name='o.db', db_table='tt', calc_dir_prefix='run'), {}), ({}, dict(mode='w', backup=False)), ({}, dict(sleep=5, excl=False)), ({}, {})])])
op('opt.template')(lambda L, d: [(lambda k: files(d, 'ft' + ''.join(map(str, k.get('keys', len(k)))) if 'keys' in k else 'ft%i' % len(k), lambda p: batch.FileTemplate(**k).write({'A': '1', 'B': '2'}, p)), (k,)) for k in (dict(basename='t', txt='XXXA @A@ XXXB'), dict(basename='t', txt='XXXA @A@ XXXB', func=lambda k: '@' + k + '@'), dict(basename='t', txt='XXXA  XXXB', keys=['A']), dict(basename='t', txt='XXXA  XXXB', keys=['B']))] +
    [(lambda txt: files(d, 'fn', lambda p: (lambda f: [f.basename, f.write({'A': 5}, p)])(batch.FileTemplate(filename=put(d, 'ct/foo.txt', txt)))), ('x XXXA',)), (lambda txt: files(d, 'fn2', lambda p: batch.FileTemplate(templ_dir=os.path.dirname(put(d, 'ct2/foo.txt', txt)), basename='foo.txt').write({'A': 5}, p)), ('x XXXA',)),
    (lambda: {k: (v.sqlval, v.sqltype) for k, v in batch.Machine(hostname='h', subcmd='q', scratch='/s', home='/h', filename=put(d, 'mm/job', 'XXXA')).get_sql_record().items()}, ())] + [(batch.conv_table, (['a', 2.0, 3], L(A(3, 1)) if 0 else [3., 2., 1.]), k) for k in (dict(), )] + [(batch.conv_table, ([1, 2., 3], [3., 2., 1.]), k) for k in ({}, dict(ffmt='%8.2f'), dict(ffmt='%8.2f', sfmt='%4s'), {})])
op('opt.random')(lambda L, d: [(lambda k: (lambda r: [r.get_random_struct().coords, r.vol_range, r.angle_range])(prandom.RandomStructure(['Si', 'O'], **k)), (k,)) for k in ({}, dict(vol_scale=6), dict(close_scale=.5), dict(cell_maxtry=500, atom_maxtry=2000), {})] + [(lambda k: prandom.random_struct(['Si', 'O'], **k), (k,)) for k in ({}, dict(vol_scale=6))])
def pwcalc(d, sub, at, kw):
    from pwtools import calculators as C
    os.makedirs(os.path.join(d, sub))
    kw = dict(kw)
    c = getattr(C, kw.pop('cls'))(label=os.path.join(d, sub, 'lab'), **kw)
    c.write_input(at)
    r = tree(os.path.join(d, sub))
    return {k: v.split(b'\n', 1)[1] if k.endswith('.struct') else v for k, v in r.items()}    # the first line has the date
def pwat(L):
    from ase import Atoms
    return Atoms(symbols=SY, cell=L(CELL.copy()), scaled_positions=L(frac()), pbc=True)
PW = dict(cls='Pwscf', pp={'Al': 'Al.UPF', 'N': 'N.UPF', 'O': 'O.UPF'}, pseudo_dir='/pp', outdir='/o')
LM = dict(cls='Lammps', pair_style='tersoff\npair_coeff * * x Al N O', command='lmp < in > out')
op('opt.calc')(lambda L, d: [(pwcalc, (d, 'c%i' % i, pwat(L), dict(kw))) for i, kw in enumerate([dict(PW, command='pw.x < PREFIX.in'), dict(PW, command='pw.x < PREFIX.in', ecutwfc=30, kpts=(2, 2, 2)), dict(PW, command='pw.x < PREFIX.in', backup=False, diagonalization='cg', mixing_beta=.7), dict(PW, command='pw.x < PREFIX.in')])] +
    [(pwcalc, (d, 'l%i' % i, pwat(L), dict(kw))) for i, kw in enumerate([dict(cls='Lammps', command='l', pair_style='tersoff', pair_coeff='* * x Al N O'), dict(cls='Lammps', command='l', pair_style='lj/cut 10', pair_coeff='* * 1 1', backup=False), dict(cls='Lammps', command='l', pair_style='tersoff', pair_coeff='* * x Al N O')])])
