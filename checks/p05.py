"""P05: SQLite column operations against a plain table model."""
import itertools, os, sqlite3
import numpy as np
from mc import *
from pwtools import sql, common

chk = Check('P05', level='model_checking',
    rule='Breadth-first search of the table model from several initial tables; every enabled operation (add/attach/fill column(s), insert) from every distinct model state is replayed on a fresh real SQLiteDB and all readers are compared. Non-trivial: the operation changes the table or must be refused. Further groups: reopened files, makedb append histories, record builders.',
    assumptions=['start rows beyond the row after the last are not explored (documented for existing rows and continuation only)',
                 'after a refusal caused by a non-NULL cell only that the cell kept its value is required'])

TYP = {'a': 'INTEGER', 'b': 'REAL', 'c': 'TEXT'}
VALS = {'a': [1, 2, 3], 'b': [1.5, 2.5, 1e-300], 'c': ['x', "it's", '']}
MAXROWS = 3

def vlists(col):
    v = VALS[col]
    return [[], [v[0]], [v[1], v[2]], [v[0], None, v[2]], [None]]

def all_ops():
    for col in 'abc':
        yield ['add', col]
        for vi in range(5):
            for start, ext, ov in itertools.product((1, 2, 3), (True, False), (True, False)):
                yield ['fill', col, vi, start, ext, ov]
                yield ['attach', col, vi, start, ext, ov]
    yield ['addmany', 'ab']
    yield ['addmany', 'bca']
    for cols in ('a', 'bc', 'cab'):
        yield ['insert', cols]

OPS = list(all_ops())

# ---------------------------------------------------------------- the model
# state: (tuple of columns, tuple of row tuples)
def m_apply(st, op):
    """-> (status, newstate); status ok / refuse / conflict / skip"""
    cols, rows = list(st[0]), [dict(zip(st[0], r)) for r in st[1]]
    def out():
        return (tuple(cols), tuple(tuple(r.get(c) for c in cols) for r in rows))
    k = op[0]
    if k == 'add':
        if op[1] not in cols:
            cols.append(op[1])
        return 'ok', out()
    if k == 'addmany':
        for c in op[1]:
            if c not in cols:
                cols.append(c)
        return 'ok', out()
    if k == 'insert':
        if not all(c in cols for c in op[1]) or len(rows) >= MAXROWS:
            return 'skip', st
        rows.append({c: VALS[c][0] for c in op[1]})
        return 'ok', out()
    _, col, vi, start, ext, ov = op
    vals = vlists(col)[vi]
    n = len(rows)
    if start > n + 1:
        return 'skip', st
    if k == 'attach':
        if not ov and col in cols:
            return 'refuse', st
        if col not in cols:
            if not ext and start > n:
                return 'skip', st      # refused half-way: column is added
            cols.append(col)
    elif col not in cols:
        return 'refuse', st
    if not ext and start > n:
        return 'refuse', st
    if ext and start - 1 + len(vals) > MAXROWS:
        return 'skip', st
    for i, v in enumerate(vals):
        r = start - 1 + i
        if r < n:
            if not ov and rows[r].get(col) is not None:
                return 'conflict', (r, col, rows[r][col])
            rows[r][col] = v
        elif ext:
            rows.append({col: v})
    return 'ok', out()

INIT = [(('a',), ()), (('a', 'b'), ((1, 1.5),)), (('c', 'a'), (('x', None), (None, 7))), (('b',), ((None,), (2.5,), (None,)))]

def bfs(init, depth):
    seen = {init: []}
    frontier = [init]
    for d in range(depth):
        new = []
        for s in frontier:
            for oi, op in enumerate(OPS):
                st, s2 = m_apply(s, op)
                if st == 'ok' and s2 not in seen:
                    seen[s2] = seen[s] + [oi]
                    new.append(s2)
        frontier = new
    return seen

# ------------------------------------------------------------- the real code
def r_apply(db, op, table=None):
    k = op[0]
    kw = {} if table is None else dict(table=table)
    if k == 'add':
        db.add_column(op[1], TYP[op[1]].lower(), **kw)
    elif k == 'addmany':
        db.add_columns([(c, TYP[c]) for c in op[1]], **kw)
    elif k == 'insert':
        t = table or db.get_table()
        db.execute('insert into %s (%s) values (%s)' % (t, ','.join(op[1]), ','.join('?' * len(op[1]))),
                   tuple(VALS[c][0] for c in op[1]))
    else:
        _, col, vi, start, ext, ov = op
        vals = vlists(col)[vi]
        if k == 'attach':
            if vals == [] or vals[0] is None:
                kw['sqltype'] = TYP[col]
            db.attach_column(col, vals, start=start, extend=ext, overwrite=ov, **kw)
        else:
            db.fill_column(col, vals, start=start, extend=ext, overwrite=ov, **kw)

def r_init(db, st, table):
    db.create_table([(c, {'a': 'integer', 'b': 'FLOAT', 'c': 'text'}[c]) for c in st[0]], table=table)
    for r in st[1]:
        db.execute('insert into %s (%s) values (%s)' % (table, ','.join(st[0]), ','.join('?' * len(r))), r)

def same(a, b):
    return type(a) == type(b) and a == b

def compare(db, st, table):
    cols, rows = st
    hdr = db.get_header(table)
    check([tuple(h) for h in hdr] == [(c, TYP[c]) for c in cols], lambda: 'header %s expected %s' % (hdr, cols))
    got = db.execute('select * from %s order by rowid' % table).fetchall()
    check(len(got) == len(rows) and all(same(x, y) for g, r in zip(got, rows) for x, y in zip(g, r)),
          lambda: 'rows %s expected %s' % (got, rows))
    for c in 'abc':
        check(db.has_column(c, table=table) == (c in cols), 'has_column %s' % c)
    for i, c in enumerate(cols):
        exp = [r[i] for r in rows]
        l = db.get_list1d('select %s from %s' % (c, table))
        check(list(l) == exp, lambda: 'get_list1d %s expected %s' % (l, exp))
        arr = db.get_array1d('select %s from %s' % (c, table))
        check(isinstance(arr, np.ndarray) and arr.tolist() == np.array(exp).tolist(), 'get_array1d')
    d = db.get_dict('select %s from %s' % (','.join(reversed(cols)), table))
    check(list(d) == list(reversed(cols)) and all(d[c] == [r[i] for r in rows] for i, c in enumerate(cols)),
          lambda: 'get_dict %s' % d)
    if rows:
        arr = db.get_array('select * from %s' % table)
        check(arr.shape == (len(rows), len(cols)), 'get_array shape')
    check((db.get_max_rowid(table) or 0) == len(rows), 'get_max_rowid')
    check(db.has_table(table) and not db.has_table('nope'), 'has_table')
    # several columns: row by row; a single entry is the only one
    l = db.get_list1d('select * from %s order by rowid' % table)
    check(list(l) == [x for r in rows for x in r], lambda: 'get_list1d of all columns %s' % l)
    c0 = [r[0] for r in rows]
    x = raises(lambda: db.get_single('select %s from %s' % (cols[0], table)))
    check((x is None) == (len(rows) == 1), lambda: 'get_single of %i entries: %r' % (len(rows), x))
    for i in range(len(rows)):
        got = db.get_single('select %s from %s where rowid=?' % (cols[0], table), (i + 1,))
        check(same(got, c0[i]), lambda: 'get_single %r' % got)

OTHER = (('c', 'b'), (('keep', 2.5), (None, None)))

def gen_states(tier):
    for ii, init in enumerate(INIT):
        depth = 3 if tier != 'quick' else (1, 2, 1, 2)[ii]
        for s, tr in sorted(bfs(init, depth).items(), key=lambda x: (len(x[1]), repr(x[0]))):
            yield [ii, tr]

@chk.group(gen_states)
def transitions(case, ctx):
    ii, tr = case
    st0 = INIT[ii]
    st = st0
    for oi in tr:
        st = m_apply(st, OPS[oi])[1]
    ctx.count('states')
    for n, op in enumerate(OPS):
        status, st2 = m_apply(st, op)
        if status == 'skip':
            continue
        # alternate between the default table and an explicit table argument
        explicit = (n + len(tr)) % 2 == 1
        db = sql.SQLiteDB(':memory:', table='other' if explicit else 'calc')
        tab = 'calc' if explicit else None
        r_init(db, st0, 'calc')
        r_init(db, OTHER, 'other')
        for oi in tr:
            r_apply(db, OPS[oi], tab)
        ctx.eval()
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        where = lambda m: 'after %s from %s: %s' % (op, st, m)
        try:
            if status == 'ok':
                r_apply(db, op, tab)
                compare(db, st2, 'calc')
            else:
                e = raises(lambda: r_apply(db, op, tab))
                check(e is not None, 'not refused')
                if status == 'refuse':
                    compare(db, st, 'calc')
                else:
                    r, c, v = st2
                    got = db.get_single('select %s from calc where rowid==?' % c, (r + 1,))
                    check(same(got, v), 'refused overwrite changed the cell')
            compare(db, OTHER, 'other')
        except Violation as e:
            raise Violation(where(e))
        except Exception as e:
            raise Violation(where('%s: %s' % (type(e).__name__, e)))

# every operation sequence (no state merging), persisted and reopened
PER = [['add', 'b'], ['attach', 'c', 2, 1, True, False], ['fill', 'a', 3, 1, True, True],
       ['insert', 'a'], ['attach', 'b', 1, 2, True, True], ['fill', 'a', 1, 1, False, False]]

def gen_persist(tier):
    return ([i] + s for i in (0, 1) for s in seqs(range(len(PER)), 3 if tier == 'quick' else 4, 1))

@chk.group(gen_persist)
def reopen(case, ctx):
    d = ctx.tmp()
    fn = os.path.join(d, 'x.db')
    st = INIT[case[0]]
    db = sql.SQLiteDB(fn, table='calc')
    r_init(db, st, 'calc')
    db.finish()
    for oi in case[1:]:
        status, st2 = m_apply(st, PER[oi])
        if status in ('skip', 'conflict'):
            ctx.trivial()
            return
        db = sql.SQLiteDB(fn, table='calc')
        compare(db, st, 'calc')
        if status == 'ok':
            r_apply(db, PER[oi])
            st = st2
        else:
            check(raises(lambda: r_apply(db, PER[oi])) is not None, 'not refused')
        compare(db, st, 'calc')
        if oi % 2:
            db.finish()
        else:
            db.commit(); del db
        ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    compare(sql.SQLiteDB(fn, table='calc'), st, 'calc')

# ------------------------------------------------------------------- makedb
MROWS = [[[1, 'a', 2.5]], [[1, 'a', 2.5], [3, "q'", -1e300]], [[2, 'z'], [4, 'y']], [[7.5, 1]]]
MCOLS = [['i', 't', 'f'], ['i', 't', 'f'], ['i', 't'], ['f', 'i']]
MTYP = {'i': 'INTEGER', 't': 'TEXT', 'f': 'REAL'}

def gen_makedb(tier):
    ops = [[m, k, c] for m in 'aw' for k in range(4) for c in (0, 1)]
    for s in seqs(ops, 2, 1):
        yield s
    if tier == 'thorough':
        for s in seqs(ops, 3, 3):
            yield s

@chk.group(gen_makedb)
def makedb_history(case, ctx):
    d = ctx.tmp()
    suf = ['.db', '.sqlite', '.sqlite3', '.db'][(case[0][1] + case[-1][1] + case[-1][2]) % 4]
    fn = os.path.join(d, 'tab' + suf)
    model = None
    res = []
    for mode, k, close in case:
        rows, cols = MROWS[k], MCOLS[k]
        kw = {}
        if k == 3:        # values for files do not go into the database
            kw['fileval_funcs'] = {'f': lambda x: 'f = %s' % x}
        if k == 2 and mode == 'a' or k == 0 and suf != '.db':
            kw['table'] = 'tab'
        call = lambda: res.append(sql.makedb(fn, [list(r) for r in rows], list(cols), mode=mode, close=bool(close), **kw))
        if mode == 'w' or model is None:
            call()
            model = (list(cols), [list(r) for r in rows])
        elif not set(cols) <= set(model[0]):
            check(raises(call, AssertionError) is not None, 'append with unknown columns accepted')
        else:
            call()
            for r in rows:
                dct = dict(zip(cols, r))
                model[1].append([dct.get(c) for c in model[0]])
        db = sql.SQLiteDB(fn, table='tab')
        check(db.get_header() == [(c, MTYP[c]) for c in model[0]], lambda: 'header %s' % db.get_header())
        got = db.execute('select * from tab order by rowid').fetchall()
        check([list(g) for g in got] == model[1], lambda: '%s expected %s' % (got, model[1]))
        db.finish()
        if model is not None and res:
            last = res.pop()
            check(last.get_table() == 'tab' and not res, 'table name')
            if not close:
                check([list(g) for g in last.execute('select * from tab order by rowid').fetchall()] == model[1], 'open database')
            else:
                check(raises(lambda: last.execute('select * from tab')) is not None, 'cursor not closed')
        ctx.count('transitions'); ctx.count('traces_validated_against_impl')

@chk.group(lambda tier: [[i, o] for i in range(5) for o in range(3)])
def attach_types(case, ctx):
    """type of an attached column: given, or that of the first value"""
    i, o = case
    vals, typ = [([1, 2.5], 'INTEGER'), ([2.5, 1], 'REAL'), (['x', 3], 'TEXT'), ([3, 'x'], 'INTEGER'), ((0.5,), 'REAL')][i]
    db = sql.SQLiteDB(':memory:', table='t')
    db.create_table([('a', 'text')])
    for n in range(3):
        db.execute("insert into t (a) values ('r%i')" % n)
    kw = [{}, dict(sqltype='text'), dict(sqltype='float')][o]
    db.attach_column('b', vals, **kw)
    want = [typ, 'TEXT', 'REAL'][o]
    check(db.get_header() == [('a', 'TEXT'), ('b', want)], lambda: 'header %s' % db.get_header())
    # sqlite converts what can be converted
    conv = {'INTEGER': lambda x: x, 'REAL': lambda x: float(x) if not isinstance(x, str) else x, 'TEXT': str}[want]
    got = db.execute('select a, b from t').fetchall()
    exp = [conv(v) for v in vals] + [None] * (3 - len(vals))
    check(got == [('r%i' % n, e) for n, e in enumerate(exp)], lambda: 'rows %s' % got)
    ctx.count('transitions'); ctx.count('traces_validated_against_impl')
    check(sql.fix_sqltype(['double', 'Float', 'blob'][o]) == ['DOUBLE', 'REAL', 'BLOB'][o], 'fix_sqltype')

@chk.group(lambda tier: [[list(s)] for n in (1, 2, 3) for s in itertools.product(range(3), repeat=n)])
def tables(case, ctx):
    """switching between tables, many records at once, scripts"""
    db = sql.SQLiteDB(':memory:')
    check(raises(lambda: db.get_header()) is not None and db.get_table() is None, 'no table set')
    db.executescript('create table t0 (a integer); create table t1 (a integer); create table t2 (b text, a integer);')
    model = [[], [], []]
    for n, i in enumerate(case[0]):
        db.set_table('t%i' % i)
        check(db.get_table() == 't%i' % i and db.has_column('b') == (i == 2), 'table')
        rows = [(10 * n + k,) for k in range(n + 1)]
        db.executemany('insert into %s (a) values (?)' % db.get_table(), rows)
        model[i] += rows
        db.add_column('c%i' % n, 'float')
        check(db.get_max_rowid() == len(model[i]), 'rows')
        for k in range(3):
            check(db.execute('select a from t%i order by rowid' % k).fetchall() == model[k], 'table %i' % k)
            check(db.has_column('c%i' % n, table='t%i' % k) == (k == i), 'new column in the table set')
        ctx.count('transitions'); ctx.count('traces_validated_against_impl')

# ---------------------------------------------------------- record builders
VALUES = [None, 0, -5, 2**40, 1.5, -0.0, 1e-300, '', 'foo', 'a\nb', memoryview(b'xy')]

def gen_entries(tier):
    return ([i, j] for i in range(len(VALUES)) for j in range(-1, len(VALUES)))

@chk.group(gen_entries)
def entries(case, ctx):
    i, j = case
    v = VALUES[i]
    f = VALUES[j] if j >= 0 else None
    e = sql.SQLEntry(sqlval=v, fileval=f, key='k')
    typ = {type(None): 'NULL', int: 'INTEGER', float: 'REAL', str: 'TEXT', memoryview: 'BLOB'}[type(v)]
    check(e.sqltype == typ and sql.find_sqltype(v) == typ, 'type of %r: %s' % (v, e.sqltype))
    check(e.sqlval is v and e.key == 'k', 'value')
    check((e.fileval is v) if f is None else (e.fileval is f), 'fileval')
    for given, exp in [('integer', 'INTEGER'), ('float', 'REAL'), ('FLOAT', 'REAL'), ('text', 'TEXT'), ('real', 'REAL')]:
        check(sql.SQLEntry(sqlval=v, sqltype=given).sqltype == exp, 'explicit type')
    if v is not None and f is None:
        db = sql.SQLiteDB(':memory:', table='t')
        db.create_table([('k', e.sqltype)])
        db.execute('insert into t (k) values (?)', (e.sqlval,))
        got = db.execute('select k from t').fetchone()[0]
        if isinstance(v, memoryview):
            check(bytes(got) == bytes(v), 'blob')
        else:
            check(same(got, v), lambda: 'stored %r got %r' % (v, got))
