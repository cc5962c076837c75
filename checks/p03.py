"""P03: common.backup on all operation histories of a small directory."""
import os, stat, shutil
from mc import *
from pwtools import common

chk = Check('P03', level='model_checking',
    rule='All operation sequences (create, change, delete, occupy numbered names, back up) up to a depth on a real scratch directory; after every step the whole directory is compared with the model state predicted from the state before. Non-trivial: contains a backup of something that exists.',
    assumptions=['no dangling links inside a directory which is backed up', 'single process'])

def snap(root):
    out = {}
    for p, ds, fs in os.walk(root):
        for n in ds + fs:
            fn = os.path.join(p, n)
            st = os.lstat(fn)
            rel = os.path.relpath(fn, root)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('l', os.readlink(fn))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('d', st.st_mode)
            else:
                out[rel] = ('f', st.st_mode, open(fn, 'rb').read())
    return out

def resolve(s, path):
    """entries of the tree at path, links followed: {relative: entry}"""
    e = s[path]
    while e[0] == 'l':
        path = os.path.normpath(os.path.join(os.path.dirname(path), e[1]))
        if path not in s:
            return None
        e = s[path]
    out = {'': e}
    if e[0] == 'd':
        for q in s:
            if os.path.dirname(q) == path:
                sub = resolve(s, q)
                if sub is None:
                    return None
                n = os.path.basename(q)
                for k, v in sub.items():
                    out[n + ('/' + k if k else '')] = v
    return out

def w(fn, txt):
    with open(fn, 'wb') as f:
        f.write(txt)

def mk(root, name):
    p = os.path.join(root, name)
    if name == 'a.txt':
        w(p, b'content\n\x00x'); os.chmod(p, 0o640)
    elif name == 'd':
        os.makedirs(p + '/sub/deep'); os.makedirs(p + '/.0'); w(p + '/x', b'1'); w(p + '/sub/deep/y', b''); os.symlink('x', p + '/lx'); w(p + '/.hid', b'h')
    elif name == 'lf':
        os.symlink('a.txt', p)
    elif name == 'ld':
        os.symlink('d', p)

def occupy(root, name, kind):
    p = os.path.join(root, name)
    if os.path.lexists(p):
        return
    if kind == 'l':
        os.symlink('gone_' + name, p)
    elif kind == 'f':
        w(p, b'occupied ' + name.encode())
    else:
        os.mkdir(p); w(p + '/z', b'inner')

OPS = [['backup', 'a.txt', '.'], ['backup', 'd', '.'], ['backup', 'd/', '.'], ['backup', 'lf', '.'], ['backup', 'ld', '.'],
       ['backup', 'a.txt', '_bak'], ['backup', 'd', ''], ['backup', 'missing', '.'], ['backup', 'a.txt.0', '.'],
       ['occ', 'a.txt.0', 'd'], ['occ', 'a.txt.1', 'f'], ['occ', 'd.0', 'f'], ['occ', 'd.2', 'd'], ['occ', 'a.txt.0', 'l'], ['occ', 'd.1', 'l'],
       ['change', 'a.txt'], ['change', 'd'], ['del', 'a.txt.0'], ['del', 'd.0'], ['del', 'a.txt']]

def gen(tier):
    for s in seqs(range(len(OPS)), 3 if tier == 'quick' else 4, 1):
        yield s

@chk.group(gen)
def histories(case, ctx):
    d = ctx.tmp()
    root = os.path.join(d, 'r.0 x')      # dots and blanks in the path
    os.mkdir(root)
    for n in ('a.txt', 'd', 'lf', 'ld'):
        mk(root, n)
    rel = sum(case) % 2
    os.chdir(root)
    used = False
    for oi in case:
        op = OPS[oi]
        before = snap(root)
        p = op[1] if rel else os.path.join(root, op[1])
        if op[0] == 'backup':
            name = op[1].rstrip('/')
            common.backup(p, **({} if op[2] == '.' else dict(prefix=op[2])))
            exp = dict(before)
            src = resolve(before, name) if name in before else None
            if src is not None:
                used = True
                i = 0
                while '%s%s%i' % (name, op[2], i) in before:
                    i += 1
                dst = '%s%s%i' % (name, op[2], i)
                for k, v in src.items():
                    exp[dst + ('/' + k if k else '')] = v
            got = snap(root)
            check(got == exp, lambda: 'after %s: %s' % ([OPS[i] for i in case], short(
                {k: (got.get(k), exp.get(k)) for k in set(got) | set(exp) if got.get(k) != exp.get(k)})))
            ctx.count('transitions'); ctx.count('traces_validated_against_impl')
        elif op[0] == 'occ':
            occupy(root, op[1], op[2])
        elif op[0] == 'change':
            if op[1] == 'd':
                w(root + '/d/new%i' % len(os.listdir(root + '/d')), b'n')
            elif op[1] in before:
                w(root + '/a.txt', b'changed')
        elif op[0] == 'del' and op[1] in before:
            q = os.path.join(root, op[1])
            shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    ctx.count('states')
    if not used:
        ctx.trivial()

# many backups of one file: two digit numbers
def gen_many(tier):
    yield from ([n, hole] for n in (9, 10, 11, 23) for hole in (-1, 0, 5, 8))

@chk.group(gen_many)
def many(case, ctx):
    n, hole = case
    d = ctx.tmp()
    fn = os.path.join(d, 'f')
    for i in range(n):
        w(fn, b'v%i' % i)
        common.backup(fn)
    check(sorted(os.listdir(d)) == sorted(['f'] + ['f.%i' % i for i in range(n)]), 'names %s' % os.listdir(d))
    if hole >= 0:
        os.remove('%s.%i' % (fn, hole))
    w(fn, b'last')
    common.backup(fn)
    for i in range(n):
        if i != hole:
            check(open('%s.%i' % (fn, i)).read() == 'v%i' % i, 'backup %i' % i)
    check(open('%s.%i' % (fn, hole if hole >= 0 else n)).read() == 'last', 'last backup')
    ctx.count('transitions', n + 1); ctx.count('traces_validated_against_impl')
