"""P31: phonon text outputs."""
import itertools, os, re
import numpy as np
from mc import *
import co
from outgen import Fmt
from pwtools import pwscf, kpath

chk = Check('P31', level='exploration',
    rule='Generated matdyn.modes, matdyn.freq, ph.dyn*, dynmat.out and dynmat.axsf files for all atom numbers x q-point numbers x value sets (incl. negative, zero, large and small numbers) x layout variants (numbers per line, header spacing, star of q, column subsets, text before and after); every number is compared. Non-trivial: all.',
    assumptions=['numbers are separated by white space'])

SETS = [dict(f=(0, 900), v=(0, 1)), dict(f=(-300, 900), v=(-1, 1)), dict(f=(-0.01, 0.01), v=(-0.001, 0.001)), dict(f=(900, 4000), v=(-99, 99))]

def data(nq, nat, k):
    s = SETS[k]
    q = co.gen_arr((nq, 3), 3 + k, -1, 1)
    q[0] = 0.0 if k % 2 == 0 else q[0]
    return q, co.gen_arr((nq, 3 * nat), 5 + k, *s['f']), co.gen_arr((nq, 3 * nat, nat, 3, 2), 7 + k, *s['v'])

def modes_block(q, f, v, qpar=False):
    """text, values as printed"""
    L = []
    qs, qv = Fmt('%12.6f')(q)
    L.append('  q = ( %s %s %s ) ' % tuple(qs) if qpar else ' q = %s %s %s' % tuple(qs))
    if qpar:
        L.append('')
    L.append(' ' + '*' * 74)
    fs, fv = Fmt('%15.6f')(f)
    vs, vv = Fmt('%10.6f')(v)
    for m in range(len(f)):
        L.append('     omega(%2i) =%s [THz] =%s [cm-1]' % (m + 1, '%15.6f' % (float(fv[m]) * 0.029979), fs[m]))
        for a in range(v.shape[1]):
            L.append(' (%s %s   %s %s   %s %s   )' % tuple(vs[m, a].reshape(-1)))
    L.append(' ' + '*' * 74)
    return L, qv, fv, vv[..., 0] + 1j * vv[..., 1]

def cmp(got, ref, msg):
    for n, g, r in zip(('q-points', 'frequencies', 'eigenvectors'), got, ref):
        r = np.asarray(r)
        check(np.shape(g) == r.shape, '%s: shape of the %s %r, file has %r' % (msg, n, np.shape(g), r.shape))
        check(np.iscomplexobj(g) == np.iscomplexobj(r), '%s: type of the %s' % (msg, n))
        for part in ('real', 'imag'):
            assert_close(getattr(np.asarray(g), part), getattr(r, part), '%s: %s (%s)' % (msg, n, part), 0, 1e-12)

def gen_modes(tier):
    for nat, nq, k in itertools.product((1, 2, 3, 5, 12) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 12, 40), (1, 2, 3, 4, 11), range(4)):
        yield [nat, nq, k]

@chk.group(gen_modes)
def matdyn_modes(case, ctx):
    nat, nq, k = case
    q, f, v = data(nq, nat, k)
    L, ref = [], [[], [], []]
    for i in range(nq):
        L += ['     diagonalizing the dynamical matrix ...', '']
        l, a, b, c = modes_block(q[i], f[i], v[i])
        L += l
        for r, x in zip(ref, (a, b, c)):
            r.append(x)
    d = ctx.tmp()
    fn = os.path.join(d, 'matdyn.modes')
    open(fn, 'w').write('\n'.join(L) + '\n')
    cmp(pwscf.read_matdyn_modes(fn, natoms=nat), ref, 'matdyn.modes')
    # one dyn file per q-point, with the star of q (other q-points) and the
    # matrix before
    for star in (0, 1, 3):
        refd = [[], [], []]
        for i in range(nq):
            L = ['Dynamical matrix file', '', '  %i  %i   0  5.0 0.0 0.0 0.0 0.0 0.0' % (2, nat), '           1  \'Al \'    24590.7655930491']
            for s in range(star):
                L += ['', '     Dynamical  Matrix in cartesian axes', '', '     q = ( %s %s %s ) ' % tuple(Fmt('%12.9f')(co.gen_arr((3,), 50 + s + i))[0]), '']
                for a, b in itertools.product(range(nat), repeat=2):
                    L.append('%5i%5i' % (a + 1, b + 1))
                    for x in range(3):
                        L.append('%s %s   %s %s   %s %s' % tuple(Fmt('%12.8f')(co.gen_arr((6,), x))[0]))
            L += ['', '     Diagonalizing the dynamical matrix', '']
            l, a, b, c = modes_block(q[i], f[i], v[i], qpar=True)
            L += l
            open(os.path.join(d, 'ph.dyn%i' % (i + 1)), 'w').write('\n'.join(L) + '\n')
            one = pwscf.read_dyn(os.path.join(d, 'ph.dyn%i' % (i + 1)), natoms=nat)
            cmp(one, (a, b, c), 'ph.dyn%i with %i q-points of the star' % (i + 1, star))
            for r, x in zip(refd, (a, b, c)):
                r.append(x)
            if star and nq > 4:
                break
        if not (star and nq > 4):
            cmp(pwscf.read_all_dyn(d, nqpoints=nq, natoms=nat), refd, 'all dyn files')
            if nq > 1:
                cmp(pwscf.read_all_dyn(d, nqpoints=nq - 1, natoms=nat), [x[:-1] for x in refd], 'first dyn files')
        ctx.eval(nq + 1)
    for i in range(nq):
        os.rename(os.path.join(d, 'ph.dyn%i' % (i + 1)), os.path.join(d, 'x.%i' % (i + 1)))
    cmp(pwscf.read_all_dyn(d, nqpoints=nq, natoms=nat, base='x.'), refd if not (star and nq > 4) else ref, 'other base name')

def gen_freq(tier):
    for nb, nk, k in itertools.product((1, 3, 6, 7, 9, 36), (1, 2, 3, 12), range(4)):
        for per in (6, 1, 4):
            yield [nb, nk, k, per]

@chk.group(gen_freq)
def matdyn_freq(case, ctx):
    nb, nk, k, per = case
    q, qv = Fmt('%10.6f')(co.gen_arr((nk, 3), 2 + k, -1, 1))
    f, fv = Fmt('%10.4f' if k != 2 else '%12.4e')(co.gen_arr((nk, nb), 4 + k, *SETS[k]['f']))
    d = ctx.tmp()
    for j, hdr in enumerate((' &plot nbnd=%4i, nks=%4i /', '  &plot nbnd= %i , nks = %i  /', ' &plot nbnd=%i,nks=%i/')):
        L = [hdr % (nb, nk)]
        for i in range(nk):
            L.append('          ' + ' '.join(q[i]))
            L += [' '.join(f[i][a:a + per]) for a in range(0, nb, per)]
        fn = os.path.join(d, 'matdyn.freq%i' % j)
        open(fn, 'w').write('\n'.join(L) + ('\n' if j else ''))
        got = pwscf.read_matdyn_freq(fn)
        cmp(got, (qv, fv), 'matdyn.freq')
        ctx.eval(1)
    pn = kpath.get_path_norm(got[0])
    check(len(pn) == nk, 'path')

DCOLS = ['[cm-1]    [THz]      IR', '[cm-1]    [THz]      IR          Raman   depol.fact', '[cm-1]    [THz]']

def gen_dynmat(tier):
    for nat, k, c, pre in itertools.product((1, 2, 3, 4, 11), range(4), range(3), range(2)):
        yield [nat, k, c, pre]

@chk.group(gen_dynmat)
def dynmat(case, ctx):
    nat, k, c, pre = case
    nm = 3 * nat
    d = ctx.tmp()
    ncol = [4, 6, 3][c]
    tab = co.gen_arr((nm, ncol), 3 + k, 0, 40)
    tab[:, 0] = np.arange(nm) + 1
    tab[:, 1] = co.gen_arr((nm,), 4 + k, *SETS[k]['f'])
    fm = ['%5.0f', '%10.2f', '%10.4f', '%10.4f', '%15.4f', '%10.4f']
    cols = [Fmt(fm[j])(tab[:, j]) for j in range(ncol)]
    L = ['     Program DYNMAT v.5.0.2', '', '     Reading Dynamical Matrix from file ph.dyn'] if pre else []
    if pre:
        L += ['     Polarizability (A^3 units)', '     multiply by 0.470335 for Clausius-Mossotti correction', '        10.218921    0.000000    0.000000', '', '     IR activities are in (D/A)^2/amu units', '']
    L.append('# mode   ' + DCOLS[c])
    L += [' '.join(col[0][i] for col in cols) for i in range(nm)]
    if pre:
        L += ['', '     DYNMAT       :      0.02s CPU         0.04s WALL', '', '   This run was terminated on:  17:49:37  29Oct2013', '   JOB DONE.']
    open(os.path.join(d, 'dynmat.out'), 'w').write('\n'.join(L) + '\n')
    vs, vv = Fmt('%10.5f')(co.gen_arr((nm, nat, 3), 9 + k, *SETS[k]['v']))
    cs, _ = Fmt('%10.5f')(co.gen_arr((nat, 3), 10, -5, 5))
    sy = ['Al', 'N', 'Si', 'H'] * 3
    A = ['ANIMSTEPS %3i' % nm, 'CRYSTAL', 'PRIMVEC'] + ['    3.037790186    0.000000000    0.000000000'] * 3
    for m in range(nm):
        A += ['PRIMCOORD %2i' % (m + 1), '%7i   1' % nat]
        A += ['   %-3s %s %s' % (sy[i], ' '.join(cs[i]), ' '.join(vs[m, i])) for i in range(nat)]
    open(os.path.join(d, 'dynmat.axsf'), 'w').write('\n'.join(A) + '\n')
    freqs = cols[1][1]
    cmp(pwscf.read_dynmat(path=d, natoms=nat), (np.zeros(3), freqs, vv), 'dynmat')
    os.rename(os.path.join(d, 'dynmat.out'), os.path.join(d, 'a.txt'))
    os.rename(os.path.join(d, 'dynmat.axsf'), os.path.join(d, 'b.txt'))
    cmp(pwscf.read_dynmat(path=d, natoms=nat, filename='a.txt', axsf='b.txt'), (np.zeros(3), freqs, vv), 'dynmat, other names')
    fn = os.path.join(d, 'a.txt')
    arr = np.array([x[1] for x in cols]).T
    assert_close(pwscf.read_dynmat_ir_raman(fn, natoms=nat, cols=None), arr, 'table', 0, 1e-12)
    for call in (pwscf.read_dynmat_ir_raman, pwscf.read_dynmat_out):
        dct = call(fn, natoms=nat)
        check(sorted(dct) == ['depol', 'freqs', 'ir', 'raman'], 'keys %r' % sorted(dct))
        for j, n in ((1, 'freqs'), (3, 'ir'), (4, 'raman'), (5, 'depol')):
            if j < ncol:
                assert_close(dct[n], arr[:, j], n, 0, 1e-12)
            else:
                check(dct[n] is None, '%s: column is not in the file' % n)
    dct = pwscf.read_dynmat_ir_raman(fn, natoms=nat, cols={2: 'thz', ncol - 1: 'last', ncol: 'none'})
    check(sorted(dct) == (['last', 'none'] + (['thz'] if ncol != 3 else []) if ncol != 3 else ['last', 'none']), 'keys of chosen columns')
    assert_close(dct['last'], arr[:, -1], 'last column', 0, 1e-12)
    check(dct['none'] is None, 'column behind the last one')
    ctx.eval(6)

# ------------------------------------------------------------------ files which end early
def gen_cut(tier):
    for reader in ('modes', 'dyn', 'all_dyn', 'freq', 'dynmat_out', 'dynmat_axsf', 'ir'):
        for nat in (1, 2, 3):
            for nq in (1, 2, 3) if reader in ('modes', 'freq', 'all_dyn') else (1,):
                for per in (6, 1) if reader == 'freq' else (6,):
                    yield [reader, nat, nq, per]

@chk.group(gen_cut)
def ends_early(case, ctx):
    """every file cut after each of its lines: refused, or only values which
    are in the file, in the right place"""
    reader, nat, nq, per = case
    nm = 3 * nat
    q, f, v = data(nq, nat, 1)
    d = ctx.tmp()
    fn = os.path.join(d, 'file')
    if reader in ('modes', 'dyn', 'all_dyn'):
        L = []
        for i in range(nq):
            l, a, b, c = modes_block(q[i], f[i], v[i], qpar=reader != 'modes')
            L += ['     diagonalizing the dynamical matrix ...', ''] + l
        if reader == 'modes':
            call = lambda: pwscf.read_matdyn_modes(fn, natoms=nat)
        elif reader == 'dyn':
            call = lambda: pwscf.read_dyn(fn, natoms=nat)
        else:
            # the last file of several is cut
            for i in range(nq):
                L, a, b, c = modes_block(q[i], f[i], v[i], qpar=True)
                fn = os.path.join(d, 'ph.dyn%i' % (i + 1))
                open(fn, 'w').write('\n'.join(L) + '\n')
            call = lambda: pwscf.read_all_dyn(d, nqpoints=nq, natoms=nat)
    elif reader == 'freq':
        L = [' &plot nbnd=%4i, nks=%4i /' % (nm, nq)]
        for i in range(nq):
            x = Fmt('%10.4f')(f[i])[0]
            L += ['          ' + ' '.join(Fmt('%10.6f')(q[i])[0])] + [' '.join(x[a:a + per]) for a in range(0, nm, per)]
        call = lambda: pwscf.read_matdyn_freq(fn)
    else:
        out = ['# mode   ' + DCOLS[1]] + ['%5i %10.2f %10.4f %10.4f %15.4f %10.4f' % (i + 1, f[0, i], f[0, i] * 0.03, i * 1.5, i + 0.25, 0.7) for i in range(nm)]
        A = ['ANIMSTEPS %3i' % nm, 'CRYSTAL', 'PRIMVEC'] + ['    3.037790186    0.000000000    0.000000000'] * 3
        for m in range(nm):
            A += ['PRIMCOORD %2i' % (m + 1), '%7i   1' % nat]
            A += ['   Al %10.5f %10.5f %10.5f %10.5f %10.5f %10.5f' % tuple([0.1 * i, 0, 1] + list(v[0, m, i, :, 0])) for i in range(nat)]
        open(os.path.join(d, 'dynmat.out'), 'w').write('\n'.join(out) + '\n')
        open(os.path.join(d, 'dynmat.axsf'), 'w').write('\n'.join(A) + '\n')
        fn, L = (os.path.join(d, 'dynmat.axsf'), A) if reader == 'dynmat_axsf' else (os.path.join(d, 'dynmat.out'), out)
        if reader == 'ir':
            call = lambda: pwscf.read_dynmat_ir_raman(fn, natoms=nat, cols=None)
        else:
            call = lambda: pwscf.read_dynmat(path=d, natoms=nat)
    def arrs(r):
        return [np.asarray(x) for x in r] if isinstance(r, tuple) else [np.asarray(r)]
    open(fn, 'w').write('\n'.join(L) + '\n')
    full = arrs(call())
    for cut in range(len(L)):
        ctx.eval()
        open(fn, 'w').write(''.join(l + '\n' for l in L[:cut]))
        for fill in (3.25, np.nan):
            # fill memory which is given back right away
            junk = [np.full(s, fill) for x in full for s in (x.shape, x.shape + (2,)) for _ in range(3)]
            del junk
            try:
                got = call()
            except Exception:
                continue
            if got is None:
                continue
            got = arrs(got)
            check(len(got) == len(full), 'number of results')
            for g, r in zip(got, full):
                check(g.ndim == r.ndim and g.shape[1:] == r.shape[1:] and len(g) <= len(r), '%s cut after line %i: shape %r' % (reader, cut, g.shape))
                check(np.array_equal(g, r[:len(g)]), '%s cut after line %i: values which are not in the file' % (reader, cut))
