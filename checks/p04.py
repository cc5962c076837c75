"""P04: template filling against token-wise rendering."""
import itertools, os
from mc import *
from pwtools import batch, common, sql
import contextlib, io

chk = Check('P04', level='exploration',
    rule='All templates over a token alphabet up to a length x parameter sets in all orders x value sets x placeholder styles, filled by the real FileTemplate / template_replace and compared with rendering token by token. Non-trivial: a placeholder of a given parameter occurs.',
    assumptions=['no placeholder is a prefix of or overlaps another one', 'values contain no placeholders', 'text is UTF-8'])

KEYS = ['a', 'bb', 'calc_c']
TOK = [('p', 'a'), ('p', 'bb'), ('p', 'calc_c'), ('t', 'tx '), ('t', '\n'), ('t', '%'), ('t', '@\\1')]
VALS = [{'a': 'v\\1\\g<0>$&', 'bb': 2.5, 'calc_c': -7},
        {'a': 'two\nlines ', 'bb': '', 'calc_c': 0},
        {'a': None, 'bb': 1e-300, 'calc_c': 'é%(x)s%'},
        {'a': True, 'bb': 123456789012345678, 'calc_c': -0.1}]
FUNCS = {'default': None, 'at': lambda x: '@%s@' % x, 'regex': lambda x: '[%s].*$' % x, 'pct': lambda x: '%' + x + '%%'}

def ph(f, k):
    return 'XXX' + k.upper() if FUNCS[f] is None else FUNCS[f](k)

def text(v):
    return v if isinstance(v, str) else ('%.16e' % v if isinstance(v, float) else repr(v))

def src(toks, f):
    return ''.join(ph(f, s) if k == 'p' else s for k, s in toks)

def render(toks, f, vals):
    return ''.join((text(vals[s]) if s in vals else ph(f, s)) if k == 'p' else s for k, s in toks)

def gen(tier):
    L = 4 if tier == 'quick' else 5
    for s in seqs(range(len(TOK)), L, 0):
        yield s

PERMS = [list(p) for n in (0, 1, 2, 3) for p in itertools.permutations(KEYS, n)]

@chk.group(gen)
def text_templates(case, ctx):
    toks = [TOK[i] for i in case]
    nph = sum(k == 'p' for k, _ in toks)
    if nph == 0:
        ctx.trivial()
    d = ctx.tmp()
    for fi, f in enumerate(FUNCS):
        txt = src(toks, f)
        if any(txt.count(ph(f, k)) != toks.count(('p', k)) for k in KEYS):
            continue
        if f == 'pct' and ('t', '%') in toks:
            continue
        kw = {} if FUNCS[f] is None else dict(func=FUNCS[f])
        t = batch.FileTemplate(basename='out', txt=txt, **kw)
        for pi, perm in enumerate(PERMS):
            vals = VALS[(pi + len(case) + fi) % len(VALS)]
            dct = {k: vals[k] for k in perm}
            exp = render(toks, f, dct)
            t.write(dct, d)
            got = common.file_read(os.path.join(d, 'out'))
            check(got == exp, lambda: 'template %r with %r: %r expected %r' % (txt, dct, got, exp))
            check(dct == {k: vals[k] for k in perm} and list(dct) == perm, 'parameters changed')
            ctx.eval()
            rules = {ph(f, k): dct[k] for k in perm}
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                got = common.template_replace(txt, rules, mode='txt', conv=True)
            check(got == exp, 'template_replace')
            for k in perm:
                n = toks.count(('p', k))
                check(('key not found: %s\n' % ph(f, k) in out.getvalue()) == (n == 0), 'not-found report for %s' % k)
                check(("key '%s' found %i times" % (ph(f, k), n) in out.getvalue()) == (n > 1), 'multiple report for %s: %s' % (k, out.getvalue()))

def gen_file(tier):
    for s in seqs(range(len(TOK)), 3, 0):
        yield s

@chk.group(gen_file)
def file_templates(case, ctx):
    """templates in files: bound keys, copies, SQL records with file values"""
    toks = [TOK[i] for i in case]
    if not any(k == 'p' for k, _ in toks):
        ctx.trivial()
    d = ctx.tmp()
    td = os.path.join(d, 'calc.templ'); cd = os.path.join(d, 'calc', '0')
    os.makedirs(td); os.makedirs(cd)
    f = ('default', 'at')[len(case) % 2]
    txt = src(toks, f)
    if any(txt.count(ph(f, k)) != toks.count(('p', k)) for k in KEYS):
        return ctx.trivial()
    fn = os.path.join(td, 'pw.in')
    with open(fn, 'w') as g:
        g.write(txt)
    os.utime(fn, (1, 1))
    kw = {} if FUNCS[f] is None else dict(func=FUNCS[f])
    out = os.path.join(cd, 'pw.in')
    os.chdir(d)
    # a text given is used even if there is a template file with that name
    for a in (dict(filename=fn), dict(basename='pw.in', templ_dir=td), dict(basename='pw.in')):
        with contextlib.redirect_stdout(io.StringIO()):
            batch.FileTemplate(txt='other' + txt, **a, **kw).write(VALS[0], cd)
        check(common.file_read(out) == 'other' + render(toks, f, VALS[0]), 'text and file')
    for vals in VALS:
        for keys in [None, [], ['a'], ['bb', 'a'], ['calc_c', 'bb', 'a']]:
            for how in ('filename', 'dir', 'default'):
                a = dict(filename=fn) if how == 'filename' else dict(basename='pw.in', **({} if how == 'default' else dict(templ_dir=td)))
                t = batch.FileTemplate(keys=keys, **a, **kw)
                check(t.basename == 'pw.in' and os.path.samefile(t.filename, fn), 'names')
                use = {k: v for k, v in vals.items() if keys is None or k in keys}
                so = io.StringIO()
                with contextlib.redirect_stdout(so):
                    t.write(dict(vals, unused='U'), cd)
                    rep = so.getvalue()
                    check(common.file_read(out) == render(toks, f, use), lambda: 'keys %s' % keys)
                    rec = {k: sql.SQLEntry(key=k, sqlval='SQL', fileval=v) for k, v in vals.items()}
                    rec['only'] = sql.SQLEntry(key='only', sqlval=3)
                    t.writesql(rec, cd)
                exp = render(toks, f, {k: ('SQL' if v is None else v) for k, v in use.items()})
                check(common.file_read(out) == exp, 'writesql keys %s' % keys)
                # bound keys must be in this file, others are spread over several files
                for k in vals:
                    check(('key not found: %s\n' % ph(f, k) in rep) == (keys is not None and k in keys and ('p', k) not in toks), lambda: 'report for %s: %s' % (k, rep))
                ctx.eval(2)
    check(open(fn).read() == txt and os.stat(fn).st_mtime == 1, 'template file changed')
    check(os.listdir(cd) == ['pw.in'] and os.listdir(td) == ['pw.in'], 'extra files')

# dict-style replacement and the in-place file helper
DT = [('s', '%(a)s'), ('d', '%(bb).3f'), ('i', '%(calc_c)05i'), ('t', 'x '), ('t2', '%%'), ('t3', '\n')]
def gen_dct(tier):
    for s in seqs(range(len(DT)), 4, 0):
        yield s

@chk.group(gen_dct)
def dict_mode(case, ctx):
    txt = ''.join(DT[i][1] for i in case)
    if not any(i < 3 for i in case):
        ctx.trivial()
    vals = {'a': 'v', 'bb': 2.0 / 3, 'calc_c': 42}
    ren = {'s': 'v', 'd': '0.667', 'i': '00042', 't': 'x ', 't2': '%', 't3': '\n'}
    exp = ''.join(ren[DT[i][0]] for i in case)
    with contextlib.redirect_stdout(io.StringIO()):
        check(common.template_replace(txt, vals) == exp, 'dct mode')
        present = [k for k, t in zip(('a', 'bb', 'calc_c'), range(3)) if t in case]
        for k in present:
            less = {q: v for q, v in vals.items() if q != k}
            check(raises(lambda: common.template_replace(txt, less)) is not None, 'missing value accepted')
        check(raises(lambda: common.template_replace(vals, txt), ValueError) is not None, 'swapped arguments accepted')
        if 0 in case:
            check(raises(lambda: common.template_replace(txt, {'%(a)s': 3}, mode='txt')) is not None, 'non-string accepted')
            check(common.template_replace(txt, {'%(a)s': 'W'}, mode='txt') == txt.replace('%(a)s', 'W'), 'txt mode')
        check(raises(lambda: common.template_replace(txt, vals, mode='xxx')) is not None, 'mode')
        d = ctx.tmp()
        fn = os.path.join(d, 'f')
        for bak in ('', '.bak'):
            common.file_write(fn, txt)
            common.file_template_replace(fn, vals, bak=bak)
            check(common.file_read(fn) == exp, 'file_template_replace')
            if bak:
                check(common.file_read(fn + bak) == txt, 'backup')
            check(sorted(os.listdir(d)) == ['f'] + ([] if not bak else ['f.bak']), 'files')
