"""P43: thermostat and barostat masses."""
import itertools
import numpy as np
from scipy import constants as sc
from mc import *
from pwtools import mttk

chk = Check('P43', level='exploration',
    rule='All combinations of frequency, temperature (integers and floats, numpy scalars), number of degrees of freedom, dimension and chain length from small sets; masses against the formulas of the MTTK paper with the constants of scipy, length and order of the chains, defaults, agreement of all functions with one another and refused chain lengths. Non-trivial: chain longer than one.',
    assumptions=['the constants of CODATA agree to 1e-5 between editions'])

ME, A0 = sc.m_e, sc.physical_constants['Bohr radius'][0]
def gen(tier):
    big = tier != 'quick'
    for f, T, nf, nd in itertools.product((1e12, 1.5e13, 10 ** 13) + ((3e14, 7e10) if big else ()), (300, 0.5, 4000.0) + ((1e-3, 77) if big else ()), (1, 3, 6, 300, 7.0), (1, 2, 3)):
        for nn in (1, 2, 3, 4, 7):
            yield [f, T, nf, nd, nn]

@chk.group(gen)
def masses(case, ctx):
    f, T, nf, nd, nn = case
    q = sc.k * T / float(f) ** 2 / ME / A0 ** 2
    def cmp(got, want, what):
        check(type(got) == type(want) and np.shape(got) == np.shape(want), '%s: %r, expected %r' % (what, got, want))
        assert_close(np.asarray(got, float) / np.asarray(want), np.ones(np.shape(want)), what, 1e-5, 0)
        ctx.eval(1)
    for num_ in (lambda x: x, float, np.float64):
        F, t, n = num_(f), num_(T), num_(nf)
        cmp(mttk.particle_nhc_masses(F, t, n, nn), [nf * q] + [q] * (nn - 1), 'particle chain')
        cmp(mttk.particle_nhc_masses(freq=F, temp=t, nf=n, nnos=nn), [nf * q] + [q] * (nn - 1), 'particle chain (keywords)')
        cmp(mttk.barostat_nhc_masses(F, t, nd, nn), [nd ** 2 * q] + [q] * (nn - 1), 'barostat chain')
        cmp(mttk.barostat_nhc_masses(freq=F, temp=t, ndim=nd, nnos=nn), [nd ** 2 * q] + [q] * (nn - 1), 'barostat chain (keywords)')
        cmp(float(mttk.barostat_mass_w(F, t, n, nd)), (nf + nd) * q, 'isotropic barostat')
        cmp(float(mttk.barostat_mass_wg(F, t, n, nd)), (nf + nd) * q / nd, 'full barostat')
        if nn == 4:
            cmp(mttk.particle_nhc_masses(F, t, n), [nf * q] + [q] * 3, 'default chain')
            cmp(mttk.barostat_nhc_masses(F, t, nd), [nd ** 2 * q] + [q] * 3, 'default chain')
        if nd == 3:
            cmp(mttk.barostat_nhc_masses(F, t, nnos=nn), [9 * q] + [q] * (nn - 1), 'default dimension')
            cmp(float(mttk.barostat_mass_w(F, t, nf=n)), (nf + 3) * q, 'default dimension')
            cmp(float(mttk.barostat_mass_wg(F, t, nf=n)), (nf + 3) * q / 3, 'default dimension')
    a, b = mttk.particle_nhc_masses(f, T, nf, nn), mttk.particle_nhc_masses(f, T, nf, nn)
    a[0] = 0
    check(b[0] != 0 and mttk.particle_nhc_masses(f, T, nf, nn) == b, 'lists are shared')
    for bad in (0, -1):
        check(raises(lambda: mttk.particle_nhc_masses(f, T, nf, bad), AssertionError) and raises(lambda: mttk.barostat_nhc_masses(f, T, nd, bad), AssertionError), 'chain of length %i accepted' % bad)
    if nn == 1:
        ctx.trivial()
