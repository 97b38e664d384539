#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the texts below and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=list(observe), hook_needed=None)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_text.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
man = dict(version=1, setup_cmd='python3 bin/setup.py',
  hooks=dict(guard='NLA3D_VERIF', enable='no hooks were needed: the checks compile the unmodified sources of /repo (the guard name is reserved and unused)', source_commits=[]),
  checks=[], not_applicable=NA)
for x in P:
    i = x['id']
    if i in CHECKS:
        c = CHECKS[i]
        man['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
           evidence_file='evidence/%s.json' % i,
           technique=c.get('technique', 'bounded exhaustive model checking: every execution of the enumerated space is run on the real code and compared step by step with a reference model'),
           level='model_checking', level_note=c['note']))
    elif i not in [n['property'] for n in NA]:
        man['not_applicable'].append(dict(property=i, reason='check not built yet'))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1); f.write('\n')
