"""P35: values <-> text."""
import io, itertools, math, os, re, sqlite3, contextlib
from configparser import ConfigParser
from decimal import Decimal
import numpy as np
from mc import *
import co
from pwtools import common, regex, sql, batch, parse

chk = Check('P35', level='exploration',
    rule='All number spellings built from signs x mantissas x exponent letters x exponents x kind suffixes x surrounding blanks, all truth words in all capitalisations, all slice texts over a set of starts, stops and steps (one and two axes), all sequences up to length 3 x separators, all array shapes up to 3x4 x formats x cut-offs, all value types stored in SQLite, all convergence tables of small size x modes, all small number texts, all sequences of texts written to a file, all paths built from up to three segments; each compared with a reference which takes the text apart by itself. Non-trivial: the text is legal.',
    assumptions=['numbers are finite', 'kind suffixes start with an underscore'])

# ---------------------------------------------------------------- numbers
MANT = ['1', '0', '42', '1.', '1.0', '.5', '0.25', '007.125', '123456789.987654321', '3.141592653589793238']
EXPO = ['', '0', '3', '03', '003', '+5', '-5', '+05', '-010', '-300']
def gen_num(tier):
    for m in MANT:
        yield [m]
    yield ['bad']

@chk.group(gen_num)
def numbers(case, ctx):
    m, = case
    if m == 'bad':
        ctx.trivial()
        for s in ['', ' ', 'd', '_8', '1d', 'd3', '--1d2', '1.2.3d4', '1d1d1', '1d2x', 'abc', '1 2', '1.5 2d3', '1d+-3', '.', '+', '-d1', '1.0dd2', '1,5']:
            e = raises(lambda: common.ffloat(s))
            check(isinstance(e, ValueError), lambda: 'ffloat(%r): %r' % (s, e))
            ctx.eval(1)
        for x in (1.5, None, b'1.5', 3):
            check(raises(lambda: common.ffloat(x)) is not None, 'no string accepted')
        return
    for sg, letter, ex in itertools.product(['', '+', '-'], ['', 'd', 'D', 'e', 'E'], EXPO):
        if (letter == '') != (ex == ''):
            continue
        core = sg + m + letter + ex
        dec = Decimal(m if not m.endswith('.') else m[:-1])
        ref = float(dec.scaleb(int(ex)) if ex else dec)
        if sg == '-':
            ref = -ref
        for kind in ['', '_4', '_10', '_dp', '_D', '_8 ']:
            for pre, post in [('', ''), ('  ', ' '), ('\t', '\n')]:
                s = pre + core + kind + post
                got = common.ffloat(s)
                check(type(got) is float and got == ref and math.copysign(1, got) == math.copysign(1, ref), lambda: 'ffloat(%r) = %r, not %r' % (s, got, ref))
                ctx.eval(1)
        # the regular expression for numbers takes all of it, nothing else
        check(re.fullmatch(regex.float_re, core) is not None, lambda: 'float_re does not match %r' % core)
        for pre, post in [('a = ', ''), (' ', ' x'), ('(', ')'), ('x:', ';')]:
            g = re.search(r'(?<![\w.])' + regex.float_re + '(?=$|[ );])', pre + core + post)
            check(g is not None and g.group(0) == core, lambda: 'float_re in %r finds %r' % (pre + core + post, g))

        # numbers of a CIF file: the uncertainty in parentheses is no part of the value
        if letter in ('', 'e', 'E'):
            for unc in ['', '(3)', '(12)', '()', '(1.5)']:
                got = parse.CifFile().cif_str2float(core + unc)
                check(type(got) is float and got == ref, lambda: 'cif_str2float(%r) = %r, not %r' % (core + unc, got, ref))
                ctx.eval(1)

# ------------------------------------------------------------ truth values
TRUE, FALSE = ['.true.', '1', 'true', 'on', 'yes'], ['.false.', '0', 'false', 'off', 'no']
@chk.group(lambda tier: [[w] for w in TRUE + FALSE] + [['ints'], ['bad']])
def truth(case, ctx):
    w, = case
    if w == 'ints':
        for i in (-2, -1, 0, 1, 2, 10 ** 20):
            check(common.tobool(i) is (i != 0), 'tobool(%i)' % i)
        for b in (True, False):
            check(common.tobool(b) is b, 'tobool(%r)' % b)
    elif w == 'bad':
        ctx.trivial()
        for x in ('', 'x', 't', 'f', '.t.', 'tru', 'true.', '.true', 'yess', '2', '-1', '00', '1.0', 'none', 'o', 'nope', 'onoff'):
            check(raises(lambda: common.tobool(x)) is not None, lambda: 'tobool(%r) accepted' % x)
        for x in (1.0, 0.0, None, [], (1,), {}):
            check(raises(lambda: common.tobool(x)) is not None, lambda: 'tobool(%r) accepted' % (x,))
    else:
        for bits in range(2 ** len(w)):
            s = ''.join(c.upper() if bits >> i & 1 else c for i, c in enumerate(w))
            check(common.tobool(s) is (w in TRUE), lambda: 'tobool(%r)' % s)
            ctx.eval(1)

# ------------------------------------------------------------------ slices
PART = ['', '0', '1', '3', '-1', '-2', '9']
STEP = [None, '', '1', '2', '-1', '-2', '5']
def sl_texts():
    for i in ('0', '2', '-1', '-3'):
        yield i, int(i)
    for a, b, c in itertools.product(PART, PART, STEP):
        yield a + ':' + b + ('' if c is None else ':' + c), slice(*[None if x in ('', None) else int(x) for x in (a, b, c)])

@chk.group(lambda tier: [[k] for k in range(len(list(sl_texts())))] + [['bad']])
def slices(case, ctx):
    k, = case
    if k == 'bad':
        ctx.trivial()
        for x in (None, 3, slice(1, 2), b'1:2', [1]):
            check(raises(lambda: common.toslice(x)) is not None, lambda: 'toslice(%r) accepted' % (x,))
        return
    t, ref = list(sl_texts())[k]
    for s in (t, ' ' + t, t + ' ', t.replace(':', ' : ')):
        got = common.toslice(s)
        check(type(got) is type(ref) and got == ref, lambda: 'toslice(%r) = %r' % (s, got))
    a = np.arange(4)
    if not isinstance(ref, int) or -4 <= ref < 4:
        check(np.array_equal(a[common.toslice(t)], a[ref]), 'selected elements')
    for t2, ref2 in sl_texts():
        got = common.toslice(t + ',' + t2)
        check(got == (ref, ref2), lambda: 'toslice(%r) = %r' % (t + ',' + t2, got))
        ctx.eval(1)

# ----------------------------------------------------- single values, lists
FL = [0.0, -0.0, 1.0, -1.5, 1 / 3., 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.12345679, 2.0 ** 53 + 2]
@chk.group(lambda tier: [['float'], ['other'], ['np']])
def single(case, ctx):
    k, = case
    if k == 'float':
        for x in FL:
            s = common.frepr(x)
            check(isinstance(s, str) and float(s) == x and math.copysign(1, float(s)) == math.copysign(1, x), lambda: 'frepr(%r) = %r' % (x, s))
            check(s == '%.16e' % x, 'default format')
            check(common.ffloat(s) == x and common.ffloat(s.replace('e', 'D')) == x, 'read back')
            for f in ('%f', '%.3g', '%12.4e'):
                check(common.frepr(x, ffmt=f) == f % x, 'ffmt')
    elif k == 'np':
        for x in FL:
            check(common.frepr(np.float64(x)) == '%.16e' % x, 'numpy float')
    else:
        for x in (0, 1, -7, 10 ** 30, None, True, False, [1, 2.5], (1, 'a'), {'a': 1}):
            check(common.frepr(x) == repr(x), lambda: 'frepr(%r)' % (x,))
            check(common.frepr(x, ffmt='%f') == repr(x), lambda: 'frepr(%r)' % (x,))
        for x in ('', 'abc', "it's", 'a"b', '1.0', '%s', 'a\nb', 'é'):
            check(common.frepr(x) == x, lambda: 'frepr(%r)' % (x,))

SEPS = [None, ' ', ',', ', ', ';', '\n', '-x-']
def gen_lists(tier):
    for n in range(4 if tier == 'quick' else 5):
        yield [n]

@chk.group(gen_lists)
def lists(case, ctx):
    n, = case
    if n == 0:
        ctx.trivial()
    for vals, sep, typ in itertools.product(itertools.product([0, 7, -12], repeat=n), SEPS, (list, tuple, np.array)):
        kw = {} if sep is None else dict(sep=sep)
        s = common.seq2str(typ(vals), **kw)
        out = ''
        for i, v in enumerate(vals):
            out += ('' if i == 0 else (' ' if sep is None else sep)) + '%i' % v
        check(s == out, lambda: 'seq2str(%r, %r) = %r' % (vals, sep, s))
        check(common.tup2str(typ(vals), **kw) == out, 'tup2str')
        ctx.eval(1)
        if n == 0 and sep is not None:
            continue
        got = common.str2seq(s, **kw)
        check(type(got) is list and got == list(vals) and all(type(x) is int for x in got), lambda: 'str2seq(%r) = %r' % (s, got))
        got = common.str2tup(s, **kw)
        check(type(got) is tuple and got == tuple(vals), lambda: 'str2tup(%r) = %r' % (s, got))
        got = common.str2seq(s, func=float, **kw)
        check(got == [float(v) for v in vals] and all(type(x) is float for x in got), 'func')
        if sep is None:
            check(common.str2tup('  ' + s.replace(' ', '  \n') + ' ') == tuple(vals), 'blanks')
            f = lambda x: '<%s>' % x
            check(common.seq2str(vals, func=f) == ' '.join('<%i>' % v for v in vals), 'func of seq2str')
    for vals in itertools.product(FL[:6], repeat=min(n, 2)):
        check(common.str2seq(common.seq2str(vals, func=repr), func=float) == list(vals), 'floats')

# ------------------------------------------------------------------ arrays
EPSS = [None, 1e-3, 0.5, -1.0, 0.0]
def gen_arr(tier):
    m = 3 if tier == 'quick' else 4
    for s in [(i,) for i in range(1, m + 2)] + list(itertools.product(range(1, m + 1), range(1, m + 2))):
        yield [list(s)]
    yield [[2, 2, 2]]

@chk.group(gen_arr)
def arrays(case, ctx):
    sh = tuple(case[0])
    n = int(np.prod(sh))
    base = np.array([1.5, -0.5, 0.5, 1e-3, -1e-3, 0.0011, 1e-20, -1e-15, 0.0, 123456.75, -0.499999, 1e15])
    if len(sh) > 2:
        ctx.trivial()
        check(raises(lambda: common.str_arr(np.ones(sh))) is not None, '3d accepted')
        return
    for off, eps, fmt, delim, lst in itertools.product(range(len(base)), EPSS, (None, '%.3f', '%5.1e', '%g'), (None, ' ', ', '), (0, 1)):
        a = base[(np.arange(n) + off) % len(base)].reshape(sh)
        if lst and (fmt is not None or delim is not None):
            continue
        kw = {}
        if eps is not None: kw['eps'] = eps
        if fmt is not None: kw['fmt'] = fmt
        if delim is not None: kw['delim'] = delim
        fr = freeze(a)
        s = common.str_arr(a.tolist() if lst else a, **kw)
        check(freeze(a) == fr, 'array changed')
        e = common.EPS if eps is None else eps
        rows = []
        for row in np.atleast_2d(a):
            rows.append((delim or '    ').join((fmt or '%.16e') % (0.0 if e > 0 and abs(x) <= e else x) for x in row))
        check(s == '\n'.join(rows), lambda: 'str_arr(%r, %r) = %r' % (a, kw, s))
        if fmt is None and delim != ', ':
            b = np.array([float(x) for x in s.split()]).reshape(sh)
            check(np.array_equal(b, np.where((np.abs(a) <= e) & (e > 0), 0.0, a)), 'read back')
        ctx.eval(1)
        if eps is not None and eps > 0:
            ref = np.where(np.abs(a) <= eps, 0.0, a)
            check(np.array_equal(common.fix_eps(a, eps=eps), ref) and freeze(a) == fr, 'fix_eps copy')
            b = a.copy()
            r = common.fix_eps(b, eps=eps, copy=False)
            check(r is b and np.array_equal(b, ref), 'fix_eps in place')
    if len(sh) == 1 or True:
        ints = np.arange(n).reshape(sh) - 2
        check(common.str_arr(ints, fmt='%i', delim=' ') == '\n'.join(' '.join('%i' % x for x in r) for r in np.atleast_2d(ints)), 'integers')

# ------------------------------------------------------- configs and dicts
def gen_cfg(tier):
    ks = ['', 'a', 'b', 'ab', 'ba']
    for s1, s2 in itertools.product(ks, ks):
        for pre in (0, 1):
            yield [s1, s2, pre]

@chk.group(gen_cfg)
def configs(case, ctx):
    s1, s2, pre = case
    info = {'one': {k: 'v1' + k for k in s1}, 'two': {k: 'x = %s' % k for k in s2}}
    fr = repr(info)
    c = ConfigParser()
    if pre:
        c.add_section('zero')
        c.set('zero', 'q', '9')
    r = common.add_to_config(c, info)
    check(r is c and repr(info) == fr, 'same config, info unchanged')
    want = {**({'zero': {'q': '9'}} if pre else {}), **info}
    check(c.sections() == list(want), 'sections')
    check({s: dict(c.items(s)) for s in c.sections()} == want, 'items')
    check(c is common.add_to_config(c, {'bl': {'k': ' x ', 'e': ''}}) and c.get('bl', 'k') == ' x ' and c.get('bl', 'e') == '', 'blanks')
    c.remove_section('bl')
    f = io.StringIO(); c.write(f); f.seek(0)
    c2 = ConfigParser(); c2.read_file(f)
    check({s: dict(c2.items(s)) for s in c2.sections()} == want, 'written and read')
    d = {k: v for k, v in zip(s1 + s2.upper(), [1, 'a', None, 2.5, (1, 2)])}
    txt = common.dict2str(d)
    check(txt == ''.join('%s: %r\n' % kv for kv in d.items()), lambda: 'dict2str %r' % txt)
    with contextlib.redirect_stdout(io.StringIO()) as so:
        common.print_dct(d)
    check(so.getvalue() == txt + '\n', 'print_dct')
    fr = repr(d)
    o = common.dict2class(d, 'Foo')
    check(vars(o) == d and all(getattr(o, k) is d[k] for k in d) and type(o).__name__ == 'Foo', 'dict2class')
    o.new = 1
    check(repr(d) == fr, 'object and dict not shared')
    check(type(common.dict2class(d)).__name__ == 'Dummy' and type(o).__name__ == 'Foo', 'names of two objects')

# ------------------------------------------------------------------ SQLite
SV = [None, 0, 1, -5, 2 ** 62, True, 0.0, 1.5, -1e-300, 1e300, '', 'abc', "it's", '1', '1.0', 'é\n', np.float64(2.5)]
@chk.group(lambda tier: [[i] for i in range(len(SV))] + [['names'], ['bad']])
def sqltypes(case, ctx):
    k, = case
    if k == 'names':
        for t in ('integer', 'real', 'text', 'null', 'blob', 'float'):
            for s in (t, t.upper(), t.capitalize()):
                check(sql.fix_sqltype(s) == ('REAL' if t == 'float' else t.upper()), lambda: 'fix_sqltype(%r)' % s)
        for n in range(3):
            for h in itertools.product([('a', 'float'), ('B', 'Text'), ('Float', 'INTEGER')], repeat=n):
                check([tuple(x) for x in sql.fix_sql_header(list(h))] == [(a, 'REAL' if b.upper() == 'FLOAT' else b.upper()) for a, b in h], 'header')
        return
    if k == 'bad':
        ctx.trivial()
        for x in ([1], (1,), {}, object(), 1j):
            check(raises(lambda: sql.find_sqltype(x)) is not None, 'unknown type accepted')
        return
    v = SV[k]
    t = sql.find_sqltype(v)
    check(t == ('NULL' if v is None else 'TEXT' if isinstance(v, str) else 'REAL' if isinstance(v, float) else 'INTEGER'), lambda: 'type of %r: %r' % (v, t))
    for fv in (None, 'file', 0, ''):
        for st in (None, t, t.lower()):
            e = sql.SQLEntry(sqlval=v, sqltype=st, fileval=fv, key='k')
            check(e.sqltype == t and e.sqlval is v and e.key == 'k' and (e.fileval is v if fv is None else e.fileval == fv), lambda: 'entry of %r, %r' % (v, fv))
    if v is None:
        return
    db = sqlite3.connect(':memory:')
    db.execute('create table t (x %s)' % t)
    db.execute('insert into t values (?)', (v,))
    (got, typ), = db.execute('select x, typeof(x) from t')
    check(got == v and typ == t.lower(), lambda: '%r comes back as %r %s' % (v, got, typ))

# ------------------------------------------------------- convergence tables
def gen_conv(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for ny in range(0, 4):
            for mode in ('next', 'last', 'bogus'):
                yield [n, ny, mode]

@chk.group(gen_conv)
def conv_tables(case, ctx):
    n, ny, mode = case
    for orig, ab, xk, typ, fm, dt in itertools.product((False, True), (False, True), 'sif', ('list', 'tuple', 'array'), (0, 1), (float, int, 'big')):
        xx = {'s': ['2 2 2', '4 4 4', 'x', 'yy'], 'i': [1, 2, 30, 4], 'f': [0.5, 1.0, 2.0, 4.0]}[xk][:n]
        y = co.gen_arr((max(ny, 1), n), n + 10 * ny, -5, 9)
        if dt is int:
            y = np.round(y * 3).astype(int)
        if dt == 'big':       # many digits
            y = y * 1e5 + 1e6
        arg = y[0] if ny == 0 else y
        arg = {'list': lambda: arg.tolist(), 'array': lambda: arg.copy(), 'tuple': lambda: tuple(arg.tolist())}[typ]()
        kw = dict(mode=mode, orig=orig, absdiff=ab)
        if fm:
            kw.update(ffmt='%9.3e|', sfmt='<%s>')
        fr = freeze([xx, arg])
        if mode == 'bogus':
            ctx.trivial()
            check(raises(lambda: batch.conv_table(xx, arg, **kw)) is not None, 'mode accepted')
            continue
        got = batch.conv_table(xx, arg, **kw)
        check(freeze([xx, arg]) == fr, 'arguments changed')
        rows = [r for r in got.split('\n')]
        check(rows[-1] == '' and len(rows) == n + 1, 'one line per point')
        for i in range(n):
            nums = []
            for row in y.tolist():
                j = (i + 1 if i + 1 < n else i) if mode == 'next' else n - 1
                d = row[j] - row[i]
                nums.append(abs(d) if ab else d)
                if orig:
                    nums.append(row[i])
            if fm:
                check(rows[i] == '<%s>' % xx[i] + ''.join('%9.3e|' % x for x in nums), lambda: 'row %r' % rows[i])
            else:
                vals = rows[i].split()
                nx = len(str(xx[i]).split())
                check(' '.join(vals[:nx]) == str(xx[i]), lambda: 'first column of %r' % rows[i])
                got_n = [float(x) for x in vals[nx:]]
                check(len(got_n) == len(nums) and all(abs(a - b) <= 0.51e-4 for a, b in zip(got_n, nums)), lambda: 'row %r, expected %r' % (rows[i], nums))
        ctx.eval(1)

# ------------------------------------------------------------ number blocks
def gen_txt(tier):
    for nr in range(0, 4):
        for nc in range(0, 4):
            yield [nr, nc]

@chk.group(gen_txt)
def blocks(case, ctx):
    nr, nc = case
    vals = np.round(co.gen_arr((max(nr, 1), max(nc, 1)), 3, -3, 4), 6)[:nr, :nc]
    for pre, dl, nl in itertools.product(('', '  ', '\n'), (' ', '   ', '\t'), ('\n', '\n\n', ' \n ')):
        txt = pre + nl.join(dl.join('%.6f' % x for x in r) for r in vals) + nl
        if vals.size == 0:
            ctx.trivial()
            for f in (parse.int_from_txt, parse.float_from_txt, parse.arr1d_from_txt, parse.arr2d_from_txt):
                check(f(txt) is None, 'empty text')
            check(parse.traj_from_txt(txt, shape=(1, 1, 3)) is None and parse.nstep_from_txt(txt) == 0, 'empty text')
            continue
        a = parse.arr2d_from_txt(txt)
        check(a.shape == (nr, nc) and np.array_equal(a, vals) if nr == 1 or nc > 1 else a.shape in ((1, nr), (nr, 1)) and np.array_equal(a.ravel(), vals.ravel()), lambda: 'arr2d of %r: %r' % (txt, a))
        if nr == 1 or nc == 1:
            a = parse.arr1d_from_txt(txt)
            check(a.shape == (vals.size,) and np.array_equal(a, vals.ravel()), lambda: 'arr1d of %r: %r' % (txt, a))
            ai = parse.arr1d_from_txt(txt.replace('.', ''), dtype=int)
            check(ai.dtype == int and ai.tolist() == [int(round(x * 1e6)) for x in vals.ravel()], 'integers')
        if vals.size == 1:
            check(parse.float_from_txt(txt) == vals[0, 0], 'float')
            check(parse.int_from_txt(txt.replace('.', '')) == int(round(vals[0, 0] * 1e6)), 'int')
            check(parse.nstep_from_txt(pre + '3' + nl) == 3, 'nstep')
        t = '\n'.join([txt] * 2)
        a = parse.traj_from_txt(t, shape=(2, nr, nc))
        check(a.shape == (2, nr, nc) and np.array_equal(a, np.array([vals, vals])), 'trajectory')
        check(raises(lambda: parse.traj_from_txt(t, shape=(2, nr, nc + 1))) is not None, 'wrong shape accepted')
        check(raises(lambda: parse.traj_from_txt(t, shape=(2, nr * nc))) is not None, '2d shape accepted')
        ctx.eval(1)

def gen_lens(tier):
    for n in range(4):
        for ls in itertools.product((0, 1, 3), repeat=n):
            yield [list(ls)]

@chk.group(gen_lens)
def axis_lens(case, ctx):
    ls, = case
    for ax in (0, 1):
        seq = [None if l == 0 and i % 2 else np.ones((l, 2) if ax == 0 else (2, l)) for i, l in enumerate(ls)]
        want = [0 if s is None else l for s, l in zip(seq, ls)]
        got = parse.axis_lens(seq, axis=ax)
        check(list(got) == want, lambda: 'axis_lens %r: %r' % (ls, got))

# ------------------------------------------------------------ files
TXT = ['', 'a', '\n', 'a\n', '\na', 'a\nb', ' a \n\n b\n', '\ta\x0cb\n', 'gr\u00f6\u00dfe \u00c5\n', '#!x\\\n$HOME "q" \'r\' %s {0}\n', 'x' * 5000 + '\n' + 'y' * 5000]
@chk.group(lambda tier: [[list(s)] for n in (1, 2, 3) for s in itertools.product(range(len(TXT)), repeat=n) if n < 3 or tier != 'quick' or s[0] % 3 == 0])
def files(case, ctx):
    """what the file helpers write is what they read; writing again replaces all of it, other files stay"""
    ts, = case
    d = ctx.tmp()
    fn, other = os.path.join(d, 'a b.txt'), os.path.join(d, 'a b.txt.2')
    common.file_write(other, 'other')
    for i in ts:
        t = TXT[i]
        common.file_write(fn, t)
        with open(fn, 'rb') as f:
            check(f.read().decode('utf-8') == t, 'file content')
        check(common.file_read(fn) == t, 'text read')
        ls = common.file_readlines(fn)
        check(''.join(ls) == t and len(ls) == t.count('\n') + (not t.endswith('\n') and t != '') and all(l.endswith('\n') for l in ls[:-1]), lambda: 'lines %r' % (ls,))
        with open(fn) as f:
            check(common.get_filename(f) == fn, 'file name')
            check(not f.closed and f.read() == t, 'file used')
        check(sorted(os.listdir(d)) == ['a b.txt', 'a b.txt.2'] and common.file_read(other) == 'other', 'other files')
        ctx.eval(1)
    n1 = common.get_filename(io.StringIO('x'))
    check(isinstance(n1, str) and n1 and not os.path.exists(n1), 'name of an object without one')
    for f in (common.file_read, common.file_readlines):
        check(isinstance(raises(lambda: f(os.path.join(d, 'missing'))), FileNotFoundError), 'missing file')

SEG = ['a', '.', '..', 'b c', '~', '', 'a/../b', './x//y']
@chk.group(lambda tier: [[list(s), h] for n in range(1, 4) for s in itertools.product(range(len(SEG)), repeat=n) for h in (0, 1)])
def paths(case, ctx):
    """complete paths: from the segments alone, ~ only as the first one"""
    idx, ab = case
    seg = [SEG[i] for i in idx]
    if ab:
        seg[0] = '/r/' + seg[0]
    home = '/home/u v'
    old = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        got = common.fullpathjoin(*seg)
        one = common.fullpath('/'.join(seg)) if '' not in seg else got
    finally:
        if old is None: del os.environ['HOME']
        else: os.environ['HOME'] = old
    txt = '/'.join(seg)
    parts = home[1:].split('/') if not ab and (seg[0] == '~') else [] if ab else os.getcwd()[1:].split('/')
    if not ab and seg[0] == '' and len(seg) > 1:
        # join: empty first segments vanish
        rest = [s for s in seg]
        while len(rest) > 1 and rest[0] == '':
            rest = rest[1:]
        txt = '/'.join(rest)
        if rest[0] == '~':
            parts = home[1:].split('/')
            txt = txt[1:]
    elif not ab and seg[0] == '~':
        txt = txt[1:]
    for p in txt.split('/'):
        if p == '..':
            parts = parts[:-1]
        elif p not in ('', '.'):
            parts = parts + [p]
    want = '/' + '/'.join(parts)
    check(got == want and one == want, lambda: '%r: %r %r, not %r' % (seg, got, one, want))
