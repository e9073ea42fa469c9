#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in sa/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sa', 'checks', i.lower() + '.py')) and i not in NA:
        t, n = TECH.get(i, ('abstract interpretation of MIR', ''))
        checks.append({'property': i, 'quick_cmd': 'cd /verif && python3 sa/run.py %s --tier quick' % i,
                       'thorough_cmd': 'cd /verif && python3 sa/run.py %s --tier thorough' % i,
                       'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n or 'all paths of the abstract interpretation; see DESIGN.md for what the abstraction keeps and assumes'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no sound static check has been built for it yet')})
m = {'version': 1,
     'setup_cmd': 'cd /verif && python3 -c "import sys; sys.path.insert(0, \'sa\'); import facts; facts.build()"',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the analyses read the compiler\'s MIR of the unmodified tree', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks analyse the MIR of /repo\'s current working tree, extracted on every run by a rustc driver built from /verif/driver.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
