#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/props.py, the rules of
the checks and seeded/*/meta.json."""
import json, os, re, ast, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, 'tools', f)).read()
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None,
         level='exploration', note='', state=None, observe=None, na=None):
    P.append((id, title, statement, qtext, why, level, note))
exec(rd('props.py'))
out = [rd('design_head.md'), '\n## Properties\n']
for id, title, st, q, why, level, note in P:
    f = os.path.join(V, 'checks', id.lower() + '.py')
    out.append('### %s %s\n' % (id, title))
    if not os.path.exists(f):
        out.append('No check.\n')
        continue
    t = ast.parse(open(f).read())
    rule, ass = '', []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Check':
            for k in n.keywords:
                if k.arg == 'rule': rule = ast.literal_eval(k.value)
                if k.arg == 'assumptions': ass = ast.literal_eval(k.value)
    try:
        costs = json.load(open(os.path.join(V, 'tools', 'costs.json'))).get(id)
    except OSError:
        costs = None
    out.append('* level: %s. %s' % (level, note))
    out.append('* space: %s' % q)
    out.append('* enumerated and compared: %s' % rule)
    if ass: out.append('* assumptions: %s' % '; '.join(ass))
    if costs: out.append('* cost: ' + ', '.join('%s %s evaluations in %.0f s' % (k, c[0], c[1]) for k, c in sorted(costs.items())))
    out.append('* why tests cannot: %s\n' % why)
sd = []
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    sd.append('| %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'].replace('|', '/'), d.get('caught', 'caught')))
out.append(rd('design_tail.md').replace('@SEEDED@', '| bug | property | breaks | by its check |\n|---|---|---|---|\n' + '\n'.join(sd)))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
