"""P01: histories of parameter studies on one root against an abstract model."""
import itertools, os, re, sqlite3, subprocess
from mc import *
from pwtools import batch, sql, common, comb

chk = Check('P01', level='model_checking',
    rule='Every history (sequence of studies = mode x parameter sets x machines x backup x excl, up to a depth) is run on a fresh root with the real ParameterStudy; after each step the complete file tree and database are compared with the model. Non-trivial: more than one study, or a study with more than one set or machine.',
    assumptions=['parameter sets are not empty', 'no two placeholders of which one is a prefix of the other'])

E = sql.SQLEntry

def psets(k):
    if k == 0:
        return [[E(key='foo', sqlval=1)]]
    if k == 1:   # incomplete sets
        return [[E(key='foo', sqlval=3), E(key='bar', sqlval="it's x")], [E(key='bar', sqlval='y')],
                [E(key='foo', sqlval=4), E(key='new1', sqlval=7)]]
    if k == 2:   # nested, different value in file
        return comb.nested_loops([sql.sql_column('foo', [1.5, -2.0]),
                                  list(zip(sql.sql_column('bar', ['u', 'v'], fileval_func=lambda x: 'bar=%s\nline' % x),
                                           sql.sql_column('ecut', [10, 20])))])
    if k == 3:   # types mixed and missing values
        return [[E(key='mix', sqlval=None), E(key='foo', sqlval=1)], [E(key='foo', sqlval=2.5), E(key='mix', sqlval='t', fileval='T T')]]
    if k == 4:
        return [[E(key='ecut', sqlval=i, fileval='%i Ry' % i)] for i in range(11)]
    if k == 5:   # value not known in the first set, text which looks like a number
        return [[E(key='late', sqlval=None), E(key='foo', sqlval=1)], [E(key='late', sqlval='007')], [E(key='late', sqlval='1e3'), E(key='q', sqlval=1.0)]]

def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]

def text(v):
    return v if isinstance(v, str) else ('%.16e' % v if isinstance(v, float) else repr(v))

T1 = [('lit', 'head XXXFO\n'), ('up', 'foo'), ('lit', ' = '), ('up', 'bar'), ('lit', '\n'), ('up', 'foo'), ('up', 'ecut'),
      ('lit', '\nrun '), ('up', 'calc_name'), ('lit', ' '), ('up', 'study_name'), ('lit', ' rev '), ('up', 'revision'),
      ('lit', ' idx '), ('up', 'idx'), ('lit', '\n'), ('up', 'home'), ('lit', ':'), ('up', 'scratch'), ('up', 'mix'), ('lit', '\n%(foo)s $here \\n\n')]
T2 = [('lit', '@foo@ '), ('at', 'idx'), ('lit', '_'), ('at', 'calc_name'), ('lit', '\n')]
T3 = [('lit', 'XXXIDX XXXFOO\n')]
JOB = [('lit', '#!/bin/sh\necho '), ('up', 'idx'), ('lit', ' '), ('up', 'scratch'), ('lit', ' >> $VLOG\n#'), ('up', 'foo'), ('lit', '\n')]

def ph(kind, k):
    return 'XXX' + k.upper() if kind == 'up' else '@%s@' % k

def src(t):
    return ''.join(s if k == 'lit' else ph(k, s) for k, s in t)

def render(t, vals):
    return ''.join(s if k == 'lit' else (text(vals[s]) if s in vals else ph(k, s)) for k, s in t)

CONF = [dict(study_name='calc', db_name='calc.db', db_table='calc', calc_dir_prefix='calc'),
        dict(study_name='my study', db_name='data.sqlite', db_table='tab1', calc_dir_prefix='c_x'),
        # names with blanks and shell characters; a directory with the first part of the name must survive
        dict(study_name="it's; $HOME", db_name='my data.db', db_table='tab1', calc_dir_prefix="c & 'x"),
        dict(study_name='calc', db_name='data.sqlite', db_table='calc', calc_dir_prefix='-calc*')]
ROOTS = ['root', 'ro/ot', "ro ot/*/a;b 'c' $HOME", 'ro\to']

def make(conf, td):
    os.makedirs(td)
    common_t = [('pw.in', T1), ('second.txt', T2), ('plain', T3)]
    for n, t in common_t + [('job.m1', JOB), ('job.two', JOB)]:
        with open(os.path.join(td, n), 'w') as f:
            f.write(src(t))
    templates = [batch.FileTemplate(basename='pw.in', templ_dir=td),
                 batch.FileTemplate(filename=os.path.join(td, 'second.txt'), keys=['idx', 'calc_name'], func=lambda x: '@%s@' % x),
                 batch.FileTemplate(basename='plain', templ_dir=td, keys=[])]
    machines = [batch.Machine(hostname='m1', subcmd='sh', scratch='/scr', home='/home/m1', filename=os.path.join(td, 'job.m1')),
                batch.Machine(hostname='two', subcmd='bash', scratch='/x/y', home='/h', template=batch.FileTemplate(basename='job.two', txt=src(JOB)))]
    return templates, machines

MINFO = [dict(host='m1', subcmd='sh', scratch='/scr', home='/home/m1', job='job.m1'),
         dict(host='two', subcmd='bash', scratch='/x/y', home='/h', job='job.two')]
MSETS = [[0], [0, 1], [1], [1, 0]]

def tree(root, dbname):
    out = {}
    for p, ds, fs in os.walk(root):
        for d in ds:
            out[os.path.relpath(os.path.join(p, d), root) + '/'] = None
        for f in fs:
            fn = os.path.join(p, f)
            rel = os.path.relpath(fn, root)
            if rel.startswith(dbname):
                out[rel] = 'DB'
            else:
                out[rel] = open(fn).read()
    return out

def rows(fn, table):
    c = sqlite3.connect(fn)
    c.row_factory = sqlite3.Row
    r = [dict(x) for x in c.execute('select * from %s order by rowid' % table)]
    cols = [(x[1], x[2]) for x in c.execute('pragma table_info(%s)' % table)]
    c.close()
    return cols, r

def run_history(conf, ops, ctx, execute=False):
    base = ctx.tmp()
    templates, machines = make(conf, os.path.join(base, 'templ dir'))
    root = os.path.join(base, ROOTS[CONF.index(conf)])
    by = [os.path.join(base, *x) for x in (('ro', 'keep'), ('ot', 'keep'), ('ro other', 'keep'), ('b', 'keep'))]
    for b in by:
        os.makedirs(os.path.dirname(b))
        open(b, 'w').close()
    os.makedirs(os.path.join(base, 'cwd'))
    os.chdir(os.path.join(base, 'cwd'))
    if conf['db_name'] == 'calc.db':
        os.makedirs(root)
        os.chdir(root)
    tr = {}
    recs, cols = None, {}
    conf0 = conf
    study = last = None
    for op in ops:
        mode, k, ms, backup, excl, sleep, var = (list(op) + [0])[:7]
        conf = dict(conf0)
        if var == 1:
            conf['study_name'] = 'other'
        elif var == 2:
            conf['calc_dir_prefix'] = 'qq'
        pl = psets(k)
        mobj = [machines[i] for i in MSETS[ms]]
        if var == 4 and recs:              # the user removes the first record
            db = sqlite3.connect(os.path.join(root, conf['db_name']))
            db.execute('delete from %s where idx=%i' % (conf['db_table'], recs[0]['idx']))
            db.commit(); db.close()
            recs = recs[1:]
            if not recs:
                return ctx.trivial()
        kw = dict(conf)
        if conf['db_name'] != 'calc.db':
            kw['calc_root'] = root
        if conf == CONF[0]:
            kw = {}                        # all defaults
        if not (var == 3 and last == (k, ms)):   # 3: write_input() again with the same object
            study = batch.ParameterStudy(machines=mobj[0] if len(mobj) == 1 else mobj,
                                     templates=templates, params_lst=pl, **kw)
        last = (k, ms)
        if var == 3:
            conf = dict(conf0, study_name=study.study_name, calc_dir_prefix=study.calc_dir_prefix)
        study.write_input(mode=mode, backup=bool(backup), sleep=sleep, excl=bool(excl))
        ctx.count('transitions'); ctx.count('traces_validated_against_impl')
        # ---- model
        old, oldrecs = dict(tr), recs
        fresh = recs is None or mode == 'w'
        rev = 0 if fresh else max(r['revision'] for r in recs) + 1
        first = 0 if fresh else max(r['idx'] for r in recs) + 1
        if fresh:
            recs, cols = [], {}
        else:
            recs = list(recs)
        exp = dict(tr)
        news = []
        for n, ps in enumerate(pl):
            idx = first + n
            vals = {e.key: e.fileval for e in flat(ps)}
            rec = {e.key: e.sqlval for e in flat(ps)}
            extra = dict(idx=idx, revision=rev, study_name=conf['study_name'], calc_name='%s_run%i' % (conf['study_name'], idx))
            vals.update(extra); rec.update(extra)
            rec['hostname'] = ','.join(MINFO[i]['host'] for i in MSETS[ms])
            recs.append(rec); news.append((idx, vals))
        bdirs = []
        for i in MSETS[ms]:
            d = '%s_%s' % (conf['calc_dir_prefix'], MINFO[i]['host'])
            if d + '/' in exp:
                if backup:
                    bdirs.append(d)
                if mode == 'w':
                    for p in [p for p in exp if p.startswith(d + '/')]:
                        del exp[p]
            exp[d + '/'] = None
            for idx, vals in news:
                v = dict(vals, **{q: MINFO[i][q] for q in ('subcmd', 'scratch', 'home')})
                exp['%s/%i/' % (d, idx)] = None
                for n, t in [('pw.in', T1), ('second.txt', T2), ('plain', T3), (MINFO[i]['job'], JOB)]:
                    exp['%s/%i/%s' % (d, idx, n)] = render(t, v) if n != 'plain' else src(T3)
            exp['%s/run.sh' % d] = None
        if excl and rev > 0:
            exp['excl_push'] = None
        exp[conf['db_name']] = 'DB'
        # ---- compare
        check(all(os.path.isfile(b) for b in by), 'files outside the root removed')
        check(sorted(os.listdir(os.path.join(base, 'cwd'))) == [], 'files written to the current directory')
        got = tree(root, conf['db_name'])
        runsh = {p: got[p] for p in got if p.endswith('run.sh') and p in exp and exp[p] is None}
        for p in runsh:
            exp[p] = got[p]
        if excl and rev > 0:
            check('excl_push' in got, 'no excl_push')
            exp['excl_push'] = got['excl_push']
            check(got['excl_push'].split() == [str(r['idx']) for r in recs if r['revision'] < rev],
                  'excl_push: %r' % got['excl_push'])
        # backups: everything new that is not expected
        ex = {p for p in got if p not in exp}
        tops = {p.split('/')[0] for p in ex}
        want = set()
        if backup:
            if oldrecs is not None:
                bk = [t for t in tops if re.fullmatch(re.escape(conf['db_name']) + r'\.\d+', t)]
                check(len(bk) == 1, 'db backups %s' % tops)
                want.add(bk[0])
                c, r = rows(os.path.join(root, bk[0]), conf['db_table'])
                check(sorted(r, key=lambda x: x['idx']) == [dict({q: None for q, _ in c}, **x) for x in oldrecs], 'db backup content')
            for d in bdirs:
                bk = [t for t in tops if re.fullmatch(re.escape(d) + r'\.\d+', t)]
                check(len(bk) == 1, 'dir backups %s %s' % (d, tops))
                want.add(bk[0])
                a = {p[len(bk[0]):]: got[p] for p in ex if p.split('/')[0] == bk[0]}
                b = {p[len(d):]: old[p] for p in old if p.startswith(d + '/')}
                check(a == b, 'dir backup content differs: %s' % short(sorted(set(a.items()) ^ set(b.items()), key=str), 300))
        check(tops == want, 'unexpected files %s' % sorted(tops ^ want))
        for p in sorted(set(exp) | set(got)):
            if p in ex:
                continue
            check(p in got, 'missing %s' % p)
            check(got[p] == exp[p], lambda: '%s: content %r expected %r' % (p, got[p], exp[p]))
        # database
        c, r = rows(os.path.join(root, conf['db_name']), conf['db_table'])
        names = set(q for x in recs for q in x)
        check(set(q for q, _ in c) == names and len(c) == len(names), 'columns %s' % c)
        typ = dict(c)
        check(all(typ[q] == t for q, t in dict(idx='INTEGER', revision='INTEGER', study_name='TEXT', calc_name='TEXT', hostname='TEXT').items()), 'types %s' % typ)
        r.sort(key=lambda x: x['idx'])
        check(r == [dict({q: None for q in names}, **x) for x in recs],
              lambda: 'records %s expected %s' % (short(r), short(recs)))
        # run scripts
        for i in MSETS[ms]:
            d = '%s_%s' % (conf['calc_dir_prefix'], MINFO[i]['host'])
            txt = got[d + '/run.sh']
            check([int(x) for x in re.findall(r'cd\s+(\d+)\b', txt)] == [x for x, _ in news], 'run.sh: ' + txt)
            check(len(re.findall(re.escape(MINFO[i]['subcmd'] + ' ' + MINFO[i]['job']), txt)) == len(news), 'run.sh ' + txt)
            check(len(re.findall(r'sleep\s+%i\b' % sleep, txt)) == len(news), 'run.sh sleep')
            if execute:
                log = os.path.join(base, 'log')
                if os.path.exists(log): os.remove(log)
                if sleep == 0:
                    p = subprocess.run(['bash', 'run.sh'], cwd=os.path.join(root, d), env=dict(os.environ, VLOG=log))
                    check(p.returncode == 0, 'run.sh failed')
                    check(open(log).read().split('\n')[:-1] == ['%i %s' % (x, MINFO[i]['scratch']) for x, _ in news], 'run.sh started ' + open(log).read())
        check([len(templates), len(machines)] == [3, 2], 'templates changed')
        # results of the calculations appear
        for i in MSETS[ms]:
            d = '%s_%s' % (conf['calc_dir_prefix'], MINFO[i]['host'])
            with open(os.path.join(root, d, str(news[0][0]), 'pw.out'), 'w') as f:
                f.write('result %i of %s\n' % (len(ops), op))
        tr = tree(root, conf['db_name'])

FULL = [[m, k, ms, b, e, 0] for m in 'aw' for k in range(4) for ms in range(3) for b, e in ((1, 1), (0, 1), (1, 0))]
SMALL = [['a', 0, 0, 1, 1, 0], ['a', 1, 1, 0, 1, 2], ['a', 2, 2, 1, 1, 0], ['w', 1, 0, 1, 1, 0], ['w', 0, 1, 0, 1, 0],
         ['a', 3, 3, 1, 0, 0], ['a', 4, 1, 1, 1, 0], ['w', 3, 2, 1, 1, 1]]

VAR = [['a', 0, 0, 1, 1, 0], ['a', 2, 2, 0, 1, 0], ['w', 0, 0, 0, 1, 0]]

def gen_hist(tier):
    for x in uniq(_gen_hist(tier)):
        yield x

def _gen_hist(tier):
    for c in range(2):
        for s in seqs(FULL if tier == 'thorough' else FULL[::2] if c else FULL[::3] + FULL[1::9], 2, 1):
            yield [c, s]
    for c in range(2):
        for s in seqs(SMALL, 3, 3):
            if not (tier == 'quick' and c == 0 and s[0][0] == 'w'):
                yield [c, s]
        if tier == 'thorough':
            for s in seqs(SMALL, 4, 4):
                yield [c, s]
    for c in (0, 1):
        for s in itertools.product([['a', 0, 0, 1, 1, 0], ['a', 5, 1, 1, 0, 0], ['a', 5, 0, 0, 1, 0, 4], ['w', 5, 0, 1, 1, 0]], repeat=3 if c else 2):
            yield [c, list(s)]
        for n in (4, 5, 6):      # long histories
            yield [c, [['a', i % 4, i % 3, i % 2, 1, 0, 4 * (i == 4)] for i in range(n)]]
    for c in (2, 3):
        for s in seqs(SMALL if tier == 'thorough' else SMALL[:5], 2, 2):
            yield [c, s]
    # changing study name or prefix, the same object used again
    for c in range(2):
        if tier == 'quick' and c == 0:
            continue
        for s in itertools.product(VAR, repeat=3):
            for v in itertools.product(range(4), repeat=3):
                if v[0] == 3 or not any(v):
                    continue
                if 3 in v[1:] and not any(v[i] == 3 and s[i][1:3] == s[i - 1][1:3] for i in (1, 2)):
                    continue
                if tier == 'quick' and 0 not in v:
                    continue
                yield [c, [list(x) + [y] for x, y in zip(s, v)]]

@chk.group(gen_hist)
def histories(case, ctx):
    c, ops = case
    ctx.count('states')
    if len(ops) == 1 and ops[0][1] == 0:
        ctx.trivial()
    run_history(CONF[c], ops, ctx)

def gen_exec(tier):
    for c in range(4):
        for s in seqs(SMALL, 2, 1) if c < 2 else ([x] for x in SMALL):
            yield [c, s]

@chk.group(gen_exec)
def run_scripts(case, ctx):
    run_history(CONF[case[0]], case[1], ctx, execute=True)
