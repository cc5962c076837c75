"""P30: mpl.Data2D describes the same grid and values in all representations."""
import itertools
import numpy as np
import matplotlib
matplotlib.use('Agg')
from mc import *
from pwtools import mpl, num

chk = Check('P30', level='model_checking',
    rule='all sequences of construction and up to 2 updates (second update of the quick tier and the third one of the thorough tier from a subset with every form); alphabet: 4 forms of x-y data x 4 grids (1x1, 2x3, 3x2 unsorted, 2x3 other values), single new x or y axes, both forms of z, x-y and z together, copying. A state is (x, y, z) held in plain lists; after every step all nine attributes and the sizes of the real object are compared with the state. Non-trivial: sequences with at least one update.',
    assumptions=['axes have distinct values and the flat lists are in nested-loop order, as documented',
                 'the value part is compared when it belongs to the current grid; a grid of another size without new values leaves them open until the next z update'])

GRIDS = [([0.5], [-1.0]), ([1.0, -2.0], [0.0, 0.5, 3.0]), ([3.0, 1.0, 2.0], [4.0, -4.0]), ([7.0, 8.0], [9.0, 10.0, -11.0])]

def zval(g, k):
    x, y = g
    return [[(1 + k) * a + 10 * b + 0.125 * i * j + k for j, b in enumerate(y)] for i, a in enumerate(x)]

def xyargs(form, g):
    x, y = g
    xx = np.array([a for a in x for b in y])
    yy = np.array([b for a in x for b in y])
    X = np.array([[a for b in y] for a in x])
    Y = np.array([[b for b in y] for a in x])
    return {'xy': dict(x=np.array(x), y=np.array(y)), 'XY2': dict(X=X, Y=Y), 'xxyy': dict(xx=xx, yy=yy),
            'XY': dict(XY=np.array([[a, b] for a in x for b in y]))}[form]

def zargs(form, z):
    return {} if form is None else {'Z': np.array(z)} if form == 'Z' else {'zz': np.array([v for r in z for v in r])}

FORMS = ('xy', 'XY2', 'xxyy', 'XY')
ZF = (None, 'Z', 'zz')

def ops():
    out = []
    for f in FORMS:
        for g in range(len(GRIDS)):
            for zf in ZF:
                out.append(['grid', f, g, zf])
    for zf in ('Z', 'zz'):
        for k in (1, 2):
            out.append(['val', zf, k])
    for ax in 'xy':
        for g in range(len(GRIDS)):
            for zf in ZF:
                out.append(['axis', ax, g, zf])
    out.append(['copy'])
    return out

OPS = ops()

def start_states():
    return [[f, g, zf] for f in FORMS for g in range(len(GRIDS)) for zf in ZF]

def build(s):
    f, g, zf = s
    grid = GRIDS[g]
    z = zval(grid, 0)
    return mpl.Data2D(**xyargs(f, grid), **zargs(zf, z)), (list(grid[0]), list(grid[1]), z if zf else None)

def step(d, st, op):
    """apply op to the object and to the state; returns new object and state or None if op is out of the domain"""
    x, y, z = st
    if op[0] == 'copy':
        return d.copy(), st
    if op[0] == 'val':
        nz = zval((x, y), op[2])
        d.update(**zargs(op[1], nz))
        return d, (x, y, nz)
    if op[0] == 'grid':
        _, f, g, zf = op
        nx, ny = map(list, GRIDS[g])
        nz = zval((nx, ny), g + 3)
        kw = xyargs(f, (nx, ny))
    else:
        _, ax, g, zf = op
        nx, ny = (list(GRIDS[g][0]), y) if ax == 'x' else (x, list(GRIDS[g][1]))
        nz = zval((nx, ny), g + 13)
        kw = {ax: np.array(nx if ax == 'x' else ny)}
    kw.update(zargs(zf, nz))
    d.update(**kw)
    if zf:
        return d, (nx, ny, nz)
    if z is None or z == 'open':
        return d, (nx, ny, z)
    return d, (nx, ny, z if (len(nx), len(ny)) == (len(x), len(y)) else 'open')

def compare(d, st, what):
    x, y, z = st
    ref = dict(x=x, y=y, xx=[a for a in x for b in y], yy=[b for a in x for b in y],
               X=[[a for b in y] for a in x], Y=[[b for b in y] for a in x], XY=[[a, b] for a in x for b in y])
    if z != 'open':
        ref.update(Z=z, zz=None if z is None else [v for r in z for v in r])
    check((d.nx, d.ny) == (len(x), len(y)), '%s: sizes %r' % (what, (d.nx, d.ny)))
    for k, v in ref.items():
        got = getattr(d, k)
        if v is None:
            check(got is None, '%s: %s = %r, expected None' % (what, k, got))
        else:
            check(isinstance(got, np.ndarray) and got.shape == np.shape(v) and (got == np.array(v)).all(), '%s: %s = %r, expected %r' % (what, k, got, v))

FEW = [o for o in OPS if o[0] in ('val', 'copy') or o[2] in (1, 2)]
FEWER = [o for o in OPS if o in ([['copy']] + [['val', z, 1] for z in ('Z', 'zz')]) or (o[0] == 'grid' and o[2] == 1) or (o[0] == 'axis' and o[2] == 2 and o[3] != 'Z')]

def gen_seq(tier):
    for s in start_states():
        yield [s, 'quick' if tier == 'quick' else 'full']
        if tier != 'quick' and s[1] in (1, 2):
            yield [s, 'deep']

@chk.group(gen_seq)
def updates(case, ctx):
    s, how = case
    levels = {'quick': [OPS, FEWER], 'full': [OPS, OPS], 'deep': [FEW, FEWER, FEWER]}[how]
    d0, st0 = build(s)
    compare(d0, st0, 'constructed from %s' % s[0])
    seen = set()
    def rec(path, i):
        if i == len(levels):
            return
        for op in levels[i]:
            d, st = build(s)
            for o in path:
                d, st = step(d, st, o)
            d, st = step(d, st, op)
            compare(d, st, 'after %r' % (path + [op],))
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
            ctx.eval(1)
            k = freeze(st)
            if k not in seen:
                seen.add(k)
                ctx.count('states')
            rec(path + [op], i + 1)
    rec([], 0)

# --- copies -------------------------------------------------------------------
def gen_copy(tier):
    for s in start_states():
        for op in [None] + OPS:
            yield [s, op]

@chk.group(gen_copy)
def copies(case, ctx):
    s, op = case
    for side in (0, 1):
        d, st = build(s)
        if op:
            d, st = step(d, st, op)
        if st[2] == 'open':
            ctx.trivial()
            return
        pair = [d, d.copy()]
        check(type(pair[1]) is mpl.Data2D, 'type of the copy')
        compare(pair[1], st, 'copy')
        ctx.count('transitions')
        ctx.count('states')
        for k in ('x', 'y', 'xx', 'yy', 'X', 'Y', 'XY', 'Z', 'zz'):
            a = getattr(pair[side], k)
            if a is not None:
                a += 1000.0
                compare(pair[1 - side], st, 'other object after in-place change of %s of the %s' % (k, ('original', 'copy')[side]))
        d, st = build(s)
        pair = [d, d.copy()]
        step(pair[side], st, ['grid', 'xy', 3, 'Z'])
        compare(pair[1 - side], st, 'other object after update of the %s' % ('original', 'copy')[side])
        ctx.eval(2)

# --- relation to the helpers -----------------------------------------------------
def gen_mesh(tier):
    n = 3 if tier == 'quick' else 4
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            yield [a, b]

@chk.group(gen_mesh)
def mesh(case, ctx):
    a, b = case
    x, y = np.arange(a) * 1.5 - 1, np.arange(b) * -2.0 + 5
    X, Y = num.meshgridt(x, y)
    check(X.shape == (a, b) == Y.shape, 'shape')
    for i in range(a):
        for j in range(b):
            check(X[i, j] == x[i] and Y[i, j] == y[j], 'meshgridt')
    d = mpl.get_2d_testdata(max(a, 2))
    compare(d, (list(d.x), list(d.y), d.Z.tolist()), 'test data')
    check(d.nx == max(a, 2) and d.ny == max(a, 2), 'size of the test data')
    check(mpl.Data3D is mpl.Data2D or issubclass(mpl.Data3D, mpl.Data2D), 'old name')
    for kw in (dict(), dict(x=x), dict(xx=x), dict(Z=X), dict(X=X, yy=y)):
        check(raises(lambda: mpl.Data2D(**kw)), 'incomplete x-y data accepted: %r' % list(kw))
    d = mpl.Data2D(x=x, y=y)
    check(raises(lambda: d.update(foo=x)), 'unknown name accepted')
    ctx.eval(3)
