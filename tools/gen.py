#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing)."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
na = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    if not os.path.exists(os.path.join(root, 'harness', p['id'].lower() + '.py')):
        na[p['id']] = 'check not built yet'
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd='python3-vt run.py %s --tier quick' % p['id'],
        thorough_cmd='python3-vt run.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='symbolic execution of the real Python source; every assertion decided by z3 over all values on each '
                  'path; counterexamples replayed on the real code',
        level='model_checking',
        level_note=p['note']))
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string(), sys.version)"',
                   checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
                   notes='No hooks: the checks instrument the source of /repo in memory when they run. '
                         'See DESIGN.md.'), f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')
