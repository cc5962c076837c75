#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique=None,
         level='exploration', note='', state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=[f[len('/repo/'):] if f.startswith('/repo/') else 'src/pwtools/' + f for f in files],
                  mech=[dict(name=a, where=b) for a, b in mech],
                  technique=technique, level=level, note=note, state=state,
                  observe=observe, na=na))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        anchors = dict(files=p['files'], mechanism=p['mech'], hook_needed=None)
        if p['state']:
            anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        if p['observe']:
            anchors['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']),
            why_tests_cant=p['why'], anchors=anchors)) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'],
            quick_cmd='bash run.sh %s quick' % p['id'],
            thorough_cmd='bash run.sh %s thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=p['technique'] or 'bounded exhaustive enumeration of executions of the real code against a reference model',
            level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check built yet'))
m = dict(version=1,
         setup_cmd='bash setup.sh',
         checks=checks, not_applicable=na,
         notes='All checks run the real pwtools code from /repo/src (Fortran extensions rebuilt in a scratch copy when their sources changed). No hooks in /repo. Known findings: known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
