"""P11: text array round trips over all small shapes."""
import gzip, io, itertools, os
import numpy as np
from mc import *
import co
from pwtools import arrayio, common, decorators

chk = Check('P11', level='exploration',
    rule='All shapes with every dimension 1..4 (thorough 1..5), all axes (positive, negative, default), value sets, with header, explicit shape/axis or both, with added comments, from names, open files, string buffers and compressed files; the array read back is compared bitwise (savetxt prints 19 digits). Mismatching requests must raise. Non-trivial: more than one element.',
    assumptions=['files written by writetxt, optionally with comment lines added', 'shape mismatches are detected for 3d arrays'])

VAL = ['gen', 'int', 'tiny', 'special']
def values(shape, kind):
    n = int(np.prod(shape))
    if kind == 'gen':
        return co.gen_arr(shape, n) * 10.0 ** (np.arange(n) % 7 - 3).reshape(shape)
    if kind == 'int':
        return np.arange(n).reshape(shape) - 3
    if kind == 'tiny':
        return (np.arange(1, n + 1) * 1e-300 * np.array([1, -1])[np.arange(n) % 2]).reshape(shape)
    v = np.array([0.0, -0.0, 1 / 3., np.inf, -np.inf, np.pi * 1e200, np.nan, 1e22])
    return v[np.arange(n) % len(v)].reshape(shape)

def same(a, b):
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and a.dtype == float and a.tobytes() == np.ascontiguousarray(b).tobytes() or \
        (a.shape == b.shape and np.array_equal(a, b, equal_nan=True))

def shapes(m):
    for nd in (1, 2, 3):
        yield from itertools.product(range(1, m + 1), repeat=nd)

def gen(tier):
    for s in shapes(4 if tier == 'quick' else 6):
        for k in VAL:
            yield [list(s), k]

@chk.group(gen)
def round_trip(case, ctx):
    shape, kind = case
    shape = tuple(shape)
    nd = len(shape)
    arr = values(shape, kind)
    fr = freeze(arr)
    d = ctx.tmp()
    fn = os.path.join(d, 'a.txt')
    if arr.size == 1:
        ctx.trivial()
    for axis in [None] + list(range(-nd, nd)):
        kw = {} if axis is None else dict(axis=axis)
        ax = -1 if axis is None else axis
        what = 'shape %s axis %s' % (shape, axis)
        arrayio.writetxt(fn, arr, **kw)
        check(freeze(arr) == fr, 'argument changed')
        got = arrayio.readtxt(fn)
        check(same(got, arr), lambda: '%s: got %s %s' % (what, got.shape, short(repr(got), 300)))
        with open(fn) as fh:
            check(same(arrayio.readtxt(fh), arr), what + ' from open file')
            check(not fh.closed, 'file of the caller closed')
        txt = open(fn).read()
        check(same(arrayio.readtxt(io.StringIO(txt)), arr), what + ' from StringIO')
        with gzip.open(fn + '.gz', 'wt') as fh:
            fh.write(txt)
        check(same(arrayio.readtxt(fn + '.gz'), arr), what + ' from compressed file')
        with gzip.open(fn + '.gz', 'rt') as fh:
            check(same(arrayio.readtxt(fh), arr), what + ' from open compressed file')
        # the file itself: chunks along the axis in order
        rows = [l.split() for l in open(fn) if not l.startswith('#') and l.strip()]
        chunks = [arr] if nd < 3 else [np.take(arr, i, axis=ax) for i in range(shape[ax])]
        flat = np.concatenate([c.reshape(-1) for c in chunks])
        check(np.array_equal(np.array([float(x) for r in rows for x in r]), flat, equal_nan=True), what + ': order of numbers in the file')
        ncol = 1 if nd == 1 else chunks[0].shape[-1]
        check(all(len(r) == ncol for r in rows), what + ': columns')
        # explicit shape and axis take precedence / replace the header
        got = arrayio.readtxt(fn, shape=shape, axis=ax)
        check(same(got, arr), lambda: '%s: explicit, got shape %s' % (what, got.shape))
        check(same(arrayio.readtxt(fn, shape=shape), arr) and same(arrayio.readtxt(fn, axis=ax), arr), what + ': half explicit')
        arrayio.writetxt(fn, arr, header=False, **kw)
        check(not any('shape' in l for l in open(fn)), 'header written')
        got = arrayio.readtxt(fn, shape=shape, axis=ax)
        check(same(got, arr), lambda: '%s: no header, got shape %s' % (what, got.shape))
        check(raises(lambda: arrayio.readtxt(fn)) is not None, 'no header and no shape accepted')
        # comments between header and data and inside the data
        arrayio.writetxt(fn, arr, **kw)
        lines = open(fn).read().split('\n')
        h = [l for l in lines if l.startswith('#')]; b = [l for l in lines if not l.startswith('#')]
        with open(fn, 'w') as f:
            f.write('\n'.join(h + ['', ''] + b[:1] + ['@ weird line'] + b[1:]))
        got = arrayio.readtxt(fn, comments=['#', '@'])
        check(same(got, arr), what + ': extra comments')
        ctx.eval(5)
        # requests that do not match
        if kind == 'int':
            # integers stay integers on request; names with .gz in other places
            os.makedirs(os.path.join(d, 'x.gz'), exist_ok=True)
            big = arr.astype(np.int64) + 2 ** 60 + 1
            f2 = os.path.join(d, 'x.gz', 'a.gz.txt')
            with open(f2, 'w') as f:
                for c in ([big] if nd < 3 else [np.take(big, i, axis=ax) for i in range(shape[ax])]):
                    np.savetxt(f, c, fmt='%d')
            got = arrayio.readtxt(f2, shape=shape, axis=ax, dtype=np.int64)
            check(got.dtype == np.int64 and got.shape == shape and np.array_equal(got, big), what + ': integers, got %s' % got.dtype)
        if nd == 3:
            for a2, da in itertools.product(range(3), (1, -1, 2, -2)):
                bad = list(shape); bad[a2] += da
                if bad[a2] < 1:
                    continue
                check(raises(lambda: arrayio.readtxt(fn, shape=tuple(bad), axis=ax, comments=['#', '@'])) is not None, what + ': wrong shape %s accepted' % bad)
            a2d = np.concatenate(chunks, axis=0)
            check(same(arrayio.arr2d_to_3d(a2d, shape, axis=ax), arr), what + ': arr2d_to_3d')
            if axis is None:
                check(same(arrayio.arr2d_to_3d(a2d, shape), arr), what + ': arr2d_to_3d default axis')
            check(raises(lambda: arrayio.arr2d_to_3d(a2d[:-1], shape, axis=ax)) is not None, what + ': incomplete array accepted')

@chk.group(lambda tier: [[1, 1, 1, 1], [2, 1, 2, 1], [2, 2, 2, 2]])
def refused(case, ctx):
    d = ctx.tmp()
    fn = os.path.join(d, 'x')
    check(raises(lambda: arrayio.writetxt(fn, np.ones(case))) is not None, '4d accepted')
    with open(fn, 'w') as f:
        f.write('# [array]\n# shape = %s\n# axis = -1\n1\n' % ' '.join(map(str, case)))
    check(raises(lambda: arrayio.readtxt(fn)) is not None, '4d accepted')
    with open(fn, 'w') as f:
        f.write('# [array]\n# shape = 2 2\n# axis = -1\n')
    check(arrayio.readtxt(fn).size == 0, 'empty file')
    with open(fn, 'w') as f:
        f.write('# [array]\n# shape = 2 2\n# axis = -1\n' + '# c\n' * 30 + '1 2\n3 4\n')
    check(raises(lambda: arrayio.readtxt(fn)) is not None, 'endless header accepted')

@chk.group(lambda tier: [[z, w, e] for z in (0, 1) for w in ('name', 'handle', 'string') for e in (0, 1)])
def handles(case, ctx):
    """names are opened and closed again, open files stay open"""
    z, what, err = case
    fn = os.path.join(ctx.tmp(), 'f.txt' + ('.gz' if z else ''))
    op = gzip.open if z else open
    with op(fn, 'wt') as f:
        f.write('one\ntwo\n')
    seen = []
    @decorators.open_and_close
    def func(fh, a, b=3):
        seen.append((fh, fh.read(), a, b))
        if err:
            raise KeyError('x')
        return 'ret', a
    arg = {'name': lambda: fn, 'handle': lambda: op(fn, 'rt'), 'string': lambda: io.StringIO('one\ntwo\n')}[what]()
    if err:
        check(isinstance(raises(lambda: func(arg, 5, b=7)), KeyError), 'exception changed')
    else:
        check(func(arg, 5, b=7) == ('ret', 5), 'return value')
    check(len(seen) == 1 and seen[0][1:] == ('one\ntwo\n', 5, 7), lambda: 'function got %r' % (seen,))
    check(seen[0][0].closed == (what == 'name'), 'file left open' if what == 'name' else 'file of the caller closed')
    if what != 'name':
        check(seen[0][0] is arg, 'another file object')

@chk.group(lambda tier: [[n, m, c, k] for n in (3, 5, 19, 20, 21, 30) for m in (None, 4, 20, 30, 40) for c in ('#', '@', '%%') for k in range(3)])
def headers(case, ctx):
    """longer headers and another comment sign"""
    n, m, c, k = case
    shape = [(2, 3), (2, 3, 2), (4,)][k]
    arr = values(shape, 'gen')
    fn = os.path.join(ctx.tmp(), 'h.txt')
    arrayio.writetxt(fn, arr)
    lines = open(fn).read().split('\n')
    h = [l for l in lines if l.startswith('#')]
    b = [l for l in lines if not l.startswith('#')]
    h += ['# key%i = 1' % i for i in range(n - len(h))]
    with open(fn, 'w') as f:
        f.write('\n'.join([c + l[1:] for l in h] + b))
    kw = {} if m is None else dict(header_maxlines=m)
    if c != '#':
        kw.update(header_comment=c, comments=c)
    if len(h) > (20 if m is None else m):
        check(raises(lambda: arrayio.readtxt(fn, **kw)) is not None, 'header of %i lines accepted' % len(h))
    else:
        check(same(arrayio.readtxt(fn, **kw), arr), 'header of %i lines, %r' % (len(h), kw))
