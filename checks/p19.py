"""P19: DCD readers on every well-formed file of a bounded family and on every
truncation of it."""
import itertools, os, struct
import numpy as np
from mc import *
import co
from pwtools import dcd, parse

chk = Check('P19', level='exploration',
    rule='All combinations of atom number x step number x convention (lammps: cosines, steps in header; cp2k: degrees, 0 in header) x value set; all readers on each file. Every truncation (each byte from 0 to the full size) of files of each shape is read with the default reader. Non-trivial: every file with at least one frame, every proper truncation.',
    assumptions=['little-endian files with unit cell block', 'a file cut directly after the header (no frame) may be refused or give zero frames'])

def rec(b):
    return struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))

def vals(nstep, nat, k):
    co_ = co.gen_arr((nstep, nat, 3), 3 + k, -20, 35).astype(np.float32)
    if k == 1:
        co_.flat[::4] = [0.0, -0.0, 1e-38, 3e30, -1e-7][nat % 5]
    ln = co.gen_arr((nstep, 3), 5 + k, 2.0, 30.0)
    an = co.gen_arr((nstep, 3), 9 + k, 35.0, 130.0)
    if k == 1:
        an[:, 1] = 90.0
        an[:, 2] = 120.0
    return co_, ln, an

def make(nat, nstep, conv, k):
    c, ln, an = vals(nstep, nat, k)
    dt = np.float32([0.5, 2.25][k])
    hdr = b'CORD' + struct.pack('<9i', nstep if conv == 'lammps' else 0, 3, 7, 0, 0, 0, 0, 0, 0)
    hdr += struct.pack('<f', dt) + struct.pack('<10i', 1, 0, 0, 0, 0, 0, 0, 0, 0, 24)
    assert len(hdr) == 84
    r1, r2 = b'REMARK one'.ljust(80), b'REMARK two %i' % k
    r2 = r2.ljust(80)
    b = rec(hdr) + rec(struct.pack('<i', 2) + r1 + r2) + rec(struct.pack('<i', nat))
    nh = len(b)
    raw = an.copy()
    if conv == 'lammps':
        raw = np.cos(np.radians(an))
    for t in range(nstep):
        # [a, gamma, b, beta, alpha, c]
        b += rec(struct.pack('<6d', ln[t, 0], raw[t, 2], ln[t, 1], raw[t, 1], raw[t, 0], ln[t, 2]))
        for i in range(3):
            b += rec(c[t, :, i].tobytes())
    return b, nh, c, np.concatenate((ln, an), axis=1), dt, r1, r2, np.concatenate((ln, raw), axis=1)

def gen_files(tier):
    nats = [1, 2, 3, 4, 5, 7, 16, 100] if tier == 'quick' else list(range(1, 40)) + [64, 100, 1000]
    nst = [1, 2, 3, 5, 10] if tier == 'quick' else list(range(1, 14)) + [100]
    for nat, ns, conv, k in itertools.product(nats, nst, ('lammps', 'cp2k'), (0, 1)):
        yield [nat, ns, conv, k]

@chk.group(gen_files)
def readers(case, ctx):
    nat, ns, conv, k = case
    b, nh, c, cc, dt, r1, r2, ccraw = make(*case)
    fn = os.path.join(ctx.tmp(), 'x.dcd')
    open(fn, 'wb').write(b)
    ca = conv == 'lammps'
    rd = [('default', lambda: dcd.read_dcd_data(fn, convang=ca)),
          ('ref', lambda: dcd.read_dcd_data_ref(fn, convang=ca)),
          ('fortran', lambda: dcd.read_dcd_data_f(fn, convang=ca))]
    if ca:
        rd.append(('fortran nstephdr', lambda: dcd.read_dcd_data_f(fn, convang=ca, nstephdr=True)))
        rd.append(('fortran again', lambda: dcd.read_dcd_data_f(fn, convang=ca, nstephdr=False)))
    rd.append(('raw default', lambda: dcd.read_dcd_data(fn)))
    rd.append(('raw ref', lambda: dcd.read_dcd_data_ref(fn)))
    rd.append(('raw fortran', lambda: dcd.read_dcd_data_f(fn)))
    rd.append(('default again', lambda: dcd.read_dcd_data(fn, convang=ca)))
    for name, f in rd:
        ctx.eval()
        gcc, gco = f()
        check(np.asarray(gco).dtype == np.float32 and np.asarray(gcc).dtype == np.float64, lambda: name + ': dtypes')
        check(gco.shape == c.shape and gcc.shape == (ns, 6), lambda: '%s: shapes %s %s' % (name, gco.shape, gcc.shape))
        check((gco == c).all(), lambda: name + ': coords differ from the file')
        e = ccraw if name.startswith('raw') else cc
        check((gcc[:, :3] == e[:, :3]).all(), lambda: name + ': cell lengths differ from the file')
        assert_close(gcc[:, 3:], e[:, 3:], name + ': angles', rtol=1e-12, atol=1e-10)
        if name.startswith('raw') or not ca:
            check((gcc == e).all(), lambda: name + ': angles differ from the file')
    h = dcd.read_dcd_header(fn)
    check(set(h) == set(n[0] for n in dcd.HEADER_TYPES), 'header keys')
    check(h['hdr'] == b'CORD' and h['natoms'] == nat and h['timestep'] == dt and h['ntitle'] == 2, lambda: 'header %s' % h)
    check(list(h['9int']) == [ns if ca else 0, 3, 7, 0, 0, 0, 0, 0, 0] and list(h['10int']) == [1] + [0] * 8 + [24], lambda: 'header %s' % h)
    check(bytes(h['remark1']).rstrip() == r1.rstrip() and bytes(h['remark2']).rstrip() == r2.rstrip(), lambda: 'remarks %s' % h)
    check(open(fn, 'rb').read() == b, 'file changed')
    # as used by the parsers
    d = os.path.join(ctx.tmp(), 'run')
    os.mkdir(d)
    open(os.path.join(d, 'log'), 'w').close()
    cls, name = (parse.LammpsDcdMDOutputFile, 'lmp.out.dcd') if ca else (parse.Cp2kDcdMDOutputFile, 'PROJECT-pos-1.dcd')
    open(os.path.join(d, name), 'wb').write(b)
    p = cls(filename=os.path.join(d, 'log'))
    check((p.get_coords() == c).all(), 'parser: coords')
    assert_close(p.get_cryst_const(), cc, 'parser: cryst_const', rtol=1e-12, atol=1e-10)
    check(p.get_natoms() == nat, 'parser: natoms')
    check(p.get_nstep() == ns, 'parser: nstep')

def gen_cut(tier):
    shapes = [(1, 1), (1, 3), (2, 2), (5, 3)] if tier == 'quick' else list(itertools.product((1, 2, 3, 5, 8, 13), (1, 2, 3, 4, 7)))
    for (nat, ns), conv in itertools.product(shapes, ('lammps', 'cp2k')):
        n = len(make(nat, ns, conv, 0)[0])
        for lo in range(0, n, 64):
            yield [nat, ns, conv, lo, min(lo + 64, n)]

@chk.group(gen_cut)
def truncations(case, ctx):
    nat, ns, conv, lo, hi = case
    b, nh, c, cc, dt, r1, r2, ccraw = make(nat, ns, conv, 0)
    fs = (len(b) - nh) // ns
    fn = os.path.join(ctx.tmp(), 'x.dcd')
    for cut in range(lo, hi):
        ctx.eval()
        open(fn, 'wb').write(b[:cut])
        try:
            gcc, gco = dcd.read_dcd_data(fn, convang=conv == 'lammps')
        except Exception:
            k, r = divmod(cut - nh, fs)
            check(not (r == 0 and k >= 1), lambda: 'file with %i complete frames refused' % k)
            continue
        check(cut >= nh, lambda: 'cut at byte %i in the header: data returned, shapes %s %s' % (cut, gcc.shape, gco.shape))
        k, r = divmod(cut - nh, fs)
        check(r == 0, lambda: 'cut at byte %i inside frame %i: %i frames returned without error' % (cut, k, len(gco)))
        check(gco.shape == (k, nat, 3) and gcc.shape == (k, 6), lambda: 'shapes %s %s, %i frames present' % (gco.shape, gcc.shape, k))
        check((gco == c[:k]).all(), 'coords')
        assert_close(gcc, cc[:k], 'cryst_const', rtol=1e-12, atol=1e-10)
