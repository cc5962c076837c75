"""P28: enumeration of parameter combinations, column builders, list helpers."""
import io, itertools
import numpy as np
from mc import *
from pwtools import comb, common, sql, num

chk = Check('P28', level='exploration',
    rule='all lists of up to 3 (thorough 4) parameter lists of length 0..3 over element kinds (numbers, strings, tuples, nested tuples, None, objects) given as list/tuple/array/one-shot iterator, flat and nested; all matrices over a 3-letter alphabet with up to 5 rows x 1..2 columns; all nestings of depth <= 3; all item removals of lists up to length 4. Non-trivial: at least two combinations/rows/leaves.',
    assumptions=['the reference for combinations is an odometer written out with explicit index arithmetic'])

class Obj:
    pass
OBJ = [Obj(), Obj(), Obj()]
KINDS = {
    'int': [1, 2, 3], 'str': ['a', 'bc', ''], 'tup': [(1, 'x'), (2, 'y'), (1, 'x')],
    'nest': [(1, (2, ('q',))), ((), 3), ([4, [5]], 'zz')], 'mix': [None, 1.5, 'k'], 'obj': OBJ,
    'dup': [7, 7, 7],
}

def is_leaf(x):
    return not isinstance(x, (list, tuple, np.ndarray))

def leaves(x):
    if is_leaf(x):
        return [x]
    out = []
    for y in x:
        out.extend(leaves(y))
    return out

def lists_of(x):
    return x if is_leaf(x) else [lists_of(y) for y in x]

def odometer(lens):
    total = 1
    for n in lens:
        total *= n
    for t in range(total):
        idx = []
        for n in reversed(lens):
            idx.append(t % n)
            t //= n
        yield idx[::-1]

FORMS = {'list': list, 'tuple': tuple, 'iter': iter, 'zip': lambda l: (x for x in l)}

def gen_loops(tier):
    kinds = list(KINDS)
    for depth in range(0, 4 if tier == 'quick' else 5):
        for lens in itertools.product(range(4), repeat=depth):
            for j, ks in enumerate(itertools.product(kinds, repeat=depth)):
                if depth >= 3 and (sum(lens) + j) % (11 if depth == 3 else 101) and tier == 'quick':
                    continue
                if depth == 4 and (sum(lens) * 5 + j) % 97:
                    continue
                yield [list(ks), list(lens)]

@chk.group(gen_loops)
def loops(case, ctx):
    ks, lens = case
    src = [KINDS[k][:n] for k, n in zip(ks, lens)]
    combos = list(odometer(lens))
    if len(combos) < 2:
        ctx.trivial()
    nested = [[lists_of(src[d][i]) for d, i in enumerate(idx)] for idx in combos]
    flat = [[y for d, i in enumerate(idx) for y in leaves(src[d][i])] for idx in combos]
    for form in FORMS:
        for outer in (list, tuple):
            mk = lambda: outer(FORMS[form](s) for s in src)
            got = comb.nested_loops(mk())
            check(same(got, nested), '%s %s: %r, expected %r' % (form, ks, got, nested))
            got = comb.nested_loops(mk(), flatten=True)
            check(same(got, flat), '%s %s flatten: %r, expected %r' % (form, ks, got, flat))
            ctx.eval(2)
    # the source is untouched and the result does not share lists with it
    keep = [list(s) for s in src]
    got = comb.nested_loops(src)
    for row in got:
        for x in row:
            if isinstance(x, list):
                x.append('changed')
    check(same(comb.nested_loops(src), nested) and same(src, keep), 'result shares lists with the input')

def same(a, b):
    if is_leaf(a) or is_leaf(b):
        return a is b or (type(a) is type(b) and a == b)
    return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))

def gen_arr(tier):
    for lens in itertools.product(range(1, 4), repeat=2):
        for flat in (False, True):
            yield [list(lens), flat]

@chk.group(gen_arr)
def loops_array(case, ctx):
    lens, flatten = case
    a = np.arange(lens[0]) + 0.5
    b = np.arange(lens[1] * 2).reshape(lens[1], 2)
    got = comb.nested_loops([a, b], flatten=flatten)
    want = [[x] + list(map(int, y)) if flatten else [x, list(map(int, y))] for x in a for y in b]
    check(isinstance(got, list) and got == want, '%r, expected %r' % (got, want))

# --- unique rows / columns ----------------------------------------------------
def gen_uniq(tier):
    for nc in (1, 2):
        for nr in range(1, 6 if tier == 'quick' else 7):
            if nc == 2 and nr > (4 if tier == 'quick' else 5):
                continue
            for t in itertools.product(range(3 if nc == 1 else 2), repeat=nr * nc):
                yield [nc, list(t)]

@chk.group(gen_uniq)
def unique(case, ctx):
    nc, t = case
    rows = [t[i:i + nc] for i in range(0, len(t), nc)]
    first = []
    for r in rows:
        if r not in first:
            first.append(r)
    if len(rows) < 2:
        ctx.trivial()
    for conv in (lambda x: x, lambda x: np.array(x), lambda x: np.array(x) * 0.5, lambda x: np.array(x).astype(str)):
        arg = conv(rows)
        keep = np.array(arg).copy()
        got = comb.unique2d(arg)
        check((np.asarray(arg) == keep).all(), 'argument changed')
        want = conv(first)
        check(np.array_equal(np.asarray(got), np.asarray(want)), 'rows %r -> %r' % (rows, got))
        check(np.array_equal(comb.unique2d(arg, 'row'), got), "what='row' is the default")
        gc = comb.unique2d(np.asarray(arg).T, what='col')
        check(np.array_equal(gc, np.asarray(want).T), 'columns %r -> %r' % (rows, gc))
        check(np.array_equal(comb.unique2d(got), got), 'not idempotent')
        ctx.eval(4)
    check(raises(lambda: comb.unique2d(rows, 'cols'), ValueError), 'illegal what')

# --- flatten, pop, asseq, match_mask ---------------------------------------------
def shapes(depth):
    """all nestings of leaves with at most 2 children per level"""
    out = ['L']
    if depth:
        sub = shapes(depth - 1)
        out.append([])
        out += [[a] for a in sub]
        out += [[a, b] for a in sub for b in sub]
    return out

def gen_flat(tier):
    s = shapes(3)
    n = 0
    for x in s:
        if x == 'L':
            continue
        n += 1
        if len(repr(x)) > 40 and n % (23 if tier == 'quick' else 1):
            continue
        yield x

LEAF = [1, 'ab', None, 2.5, '', OBJ[0], True, 'x', 0]

@chk.group(gen_flat)
def flatten(shape, ctx):
    for start in range(2):
        for conts in ((list, list, list), (tuple, list, tuple), (list, tuple, list), (iter, list, tuple)):
            cnt = itertools.count(start)
            want = []
            def build(s, d):
                if s == 'L':
                    want.append(LEAF[next(cnt) % len(LEAF)])
                    return want[-1]
                return conts[d % 3]([build(x, d + 1) for x in s])
            arg = build(shape, 0)
            got = common.flatten(arg)
            check(same(got, want), '%r -> %r' % (shape, got))
            if len(want) < 2:
                ctx.trivial()
            want0, want[:] = list(want), []
            cnt = itertools.count(start)
            it = common.iflatten(build(shape, 0))
            check(iter(it) is it and same(list(it), want), 'iflatten of %r' % (shape,))
            ctx.eval(2)

def gen_pop(tier):
    for n in range(5):
        for t in itertools.product(range(3), repeat=n):
            yield list(t)

@chk.group(gen_pop)
def lists(t, ctx):
    if len(t) < 2:
        ctx.trivial()
    vals = ['a', ('b', 1), 3]
    lst = [vals[i] for i in t]
    keep = list(lst)
    for k in range(len(t) + 1):
        for items in itertools.product(range(3), repeat=k):
            it = [vals[i] for i in items]
            need = {i: items.count(i) for i in set(items)}
            if any(t.count(i) < c for i, c in need.items()):
                check(raises(lambda: common.pop_from_list(lst, it), ValueError), 'removed an item which is not there: %r %r' % (lst, it))
            else:
                got = common.pop_from_list(lst, it)
                drop, want = dict(need), []
                for i in t:
                    if drop.get(i, 0):
                        drop[i] -= 1
                    else:
                        want.append(vals[i])
                check(got == want and got is not lst, '%r without %r -> %r' % (lst, it, got))
            check(lst == keep, 'argument changed')
            ctx.eval(1)
    # membership masks
    for k in range(4):
        for v in itertools.product(range(4), repeat=k):
            a, w = np.array(t, int), np.array(v, int)
            want = [x in v for x in t]
            check(list(num.match_mask(a, w)) == want, 'mask of %r in %r' % (t, v))
            m, idx = num.match_mask(a, w, fullout=True)
            check(list(m) == want and list(idx) == [i for i, x in enumerate(want) if x] and m.dtype == bool, 'index list')
            m, idx = num.match_mask(a + 0.1, w.astype(float), fullout=True, eps=0.2)
            check(list(m) == want and list(idx) == [i for i, x in enumerate(want) if x], 'mask with eps')
            check(not num.match_mask(a + 0.1, w.astype(float), eps=0.05).any(), 'mask with small eps')
            ctx.eval(4)
    for x in (lst, tuple(lst), np.array(t), {1: 2}):
        check(common.asseq(x) is x and common.is_seq(x), 'asseq of a sequence')
    with open(__file__) as f1, open(__file__, 'rb') as f2, open(__file__, 'rb', 0) as f3:
        for x in (f1, f2, f3, io.BytesIO(b'1'), io.StringIO('1')):
            y = common.asseq(x)
            check(len(y) == 1 and y[0] is x and not common.is_seq(x), 'asseq of a file')
            check([z is x for z in common.flatten([x, [x]])] == [True, True], 'flatten of files')
    for x in ('abc', '', 1, None, 2.5, OBJ[0]):
        check(common.asseq(x) == [x] and not common.is_seq(x), 'asseq of a scalar')

# --- columns and matrices -------------------------------------------------------
COLS = {'i': ([1, 2, 3, 2], 'INTEGER'), 'f': ([0.5, -1.0, 1e10, 0.5], 'REAL'), 's': (['x', '', 'a b', "it's"], 'TEXT')}
CONV = {'none': None, 'str': str, 'lab': lambda x: 'val=%s' % x, 'dbl': lambda x: x * 2}

def gen_col(tier):
    for c in COLS:
        for n in range(1, 5):
            for sv in CONV:
                for fv in CONV:
                    yield [c, n, sv, fv]

ORDER = ['i', 'f', 's', 'i', 'f', 's', 'i', 's', 'f', 'f']

@chk.group(gen_col)
def column(case, ctx):
    c, n, sv, fv = case
    vals, typ = COLS[c]
    vals = vals[:n]
    ident = lambda x: x
    s, f = CONV[sv] or ident, CONV[fv] or ident
    kw = {}
    if CONV[sv]:
        kw['sqlval_func'] = s
    if CONV[fv]:
        kw['fileval_func'] = f
    auto = {int: 'INTEGER', float: 'REAL', str: 'TEXT'}[type(s(vals[0]))]
    for st in (None, auto, auto.lower()) + (('float', 'FLOAT') if auto == 'REAL' else ()):
        for arg in (list(vals), tuple(vals)):
            kk = dict(kw) if st is None else dict(kw, sqltype=st)
            out = sql.sql_column('key' + c, arg, **kk)
            check(len(out) == n, 'length')
            for e, v in zip(out, vals):
                check(e.key == 'key' + c and e.sqltype == auto, 'key/type %r %r' % (e.key, e.sqltype))
                check(e.sqlval == s(v) and type(e.sqlval) is type(s(v)), 'sqlval %r of %r' % (e.sqlval, v))
                check(e.fileval == f(v), 'fileval %r of %r' % (e.fileval, v))
            if st is not None:
                old = sql.sql_column_old('key' + c, st, arg, **kw)
                check([(e.key, e.sqltype, e.sqlval, e.fileval) for e in old] == [(e.key, e.sqltype, e.sqlval, e.fileval) for e in out], 'old builder')
            ctx.eval(1)
    if n > 1:
        mixed = list(vals)
        mixed[-1] = {'i': 1.5, 'f': 'x', 's': 3}[c]
        if not CONV[sv]:
            check(raises(lambda: sql.sql_column('k', mixed)), 'mixed types accepted')

def gen_mat(tier):
    for w in (1, 2, 3):
        for cs in itertools.permutations('ifs', w):
            for n in (1, 2, 3):
                for sub in seqs(['none', 'lab', 'dbl'], w, w):
                    yield [list(cs), n, list(sub)]

@chk.group(gen_mat)
def matrix(case, ctx):
    cs, n, fv = case
    names = ['c_' + c for c in cs]
    rows = [[COLS[c][0][(r + j) % 4] for j, c in enumerate(cs)] for r in range(n)]
    if n * len(cs) < 2:
        ctx.trivial()
    ff = {nm: CONV[f] for nm, f in zip(names, fv) if f != 'none'}
    f = [CONV[x] or (lambda y: y) for x in fv]
    types = [COLS[c][1] for c in cs]
    ref = [[(nm, ty, v, g(v)) for nm, ty, v, g in zip(names, types, row, f)] for row in rows]
    view = lambda m: [[(e.key, e.sqltype, e.sqlval, e.fileval) for e in row] for row in m]
    for hd in (dict(colnames=names), dict(colnames=tuple(names)), dict(header=list(zip(names, types))),
               dict(header=[(a, b.lower()) for a, b in zip(names, types)]),
               dict(header=[(a, 'float' if b == 'REAL' else b) for a, b in zip(names, types)])):
        keep = [list(r) for r in rows]
        kw = dict(hd, fileval_funcs=ff) if ff else hd
        kept = dict(ff)
        m = sql.sql_matrix(rows, **kw)
        check(view(m) == ref, '%r: %r, expected %r' % (hd, view(m), ref))
        check(rows == keep and ff == kept, 'argument changed')
        # same through sqlval_funcs with an explicit type
        if 'header' in hd:
            g = [h if t == 'TEXT' or x == 'dbl' else None for h, t, x in zip(f, types, fv)]
            sf = {nm: h for nm, h, x in zip(names, g, fv) if h is not None and x != 'none'}
            m = sql.sql_matrix(rows, sqlval_funcs=sf, **hd)
            want = [[(nm, ty, sf.get(nm, lambda y: y)(v), v) for nm, ty, v in zip(names, types, row)] for row in rows]
            check(view(m) == want, 'sqlval_funcs: %r, expected %r' % (view(m), want))
        ctx.eval(1)
    # incomplete rows: None stays None
    for hole in itertools.product((0, 1), repeat=len(cs)):
        rows2 = [list(r) for r in rows] + [[None if h else x for h, x in zip(hole, rows[0])]]
        m = sql.sql_matrix(rows2, header=list(zip(names, types)))
        check(view(m)[-1] == [(nm, ty, v, v) for nm, ty, v in zip(names, types, rows2[-1])], lambda: 'missing values: %r' % (view(m)[-1],))
        ctx.eval(1)
    for hd in (list(zip(names, types)) + [('more', 'TEXT')], list(zip(names, types))[:-1]):
        check(raises(lambda: sql.sql_matrix(rows, header=hd)), 'wrong number of columns accepted')
    # combinations straight into a matrix and into a database
    lsts = [COLS[c][0][:n] for c in cs]
    m = sql.sql_matrix(comb.nested_loops(lsts, flatten=True), colnames=names)
    want = [[lsts[d][i] for d, i in enumerate(idx)] for idx in odometer([n] * len(cs))]
    check([[e.sqlval for e in r] for r in m] == want, 'combinations as a matrix')
    cols = comb.nested_loops([sql.sql_column(nm, l) for nm, l in zip(names, lsts)])
    check([[(e.key, e.sqlval) for e in r] for r in cols] == [list(zip(names, r)) for r in want], 'combinations of columns')
    fn = ctx.tmp() + '/t.db'
    sql.makedb(fn, want, colnames=names, table='calc', mode='w')
    db = sql.SQLiteDB(fn, table='calc')
    check([list(r) for r in db.execute('select * from calc').fetchall()] == want, 'database of all combinations')
    check([(a, b) for a, b in db.get_header()] == list(zip(names, types)), 'header %r' % (db.get_header(),))
    db.finish() if hasattr(db, 'finish') else None
