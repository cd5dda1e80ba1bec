#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a module in mc/props."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'mc', 'props', pid.lower() + '.py')) and pid in notes:
        n = notes[pid]
        checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid,
            thorough_cmd='./check %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=n['technique'], level=n['level'], level_note=n['note']))
    else:
        na.append(dict(property=pid, reason='the check for this property is not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
    notes='No hooks: everything is driven through the public API of the tree in /repo, '
          'imported directly (PYTHONPATH=/repo), so the current working tree is what is checked.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
