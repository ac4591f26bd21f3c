#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand when the property list changes)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p.get('over', ['inputs']), text=p['forall']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=['sqpdfo/' + x for x in p['files']],
                              mechanism=[dict(name=a, where='sqpdfo/' + b) for a, b in p['mech']]))
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                       thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p.get('tech', 'symbolic execution of the real Python source, z3 decides every assertion; '
                                               'counterexamples replayed on the unmodified code'),
                       level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='One command per property; see DESIGN.md. No hooks are needed in /repo (the loader executes the unmodified '
               'source with symbolic stand-ins for numpy and math).')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
