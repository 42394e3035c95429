#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/table.py and the registered scenarios."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import run
from tools import table
run.load_checks()
from symx import reg

built = set()
for s in reg.SCENARIOS:
    built.add(s.prop)
lines, checks, na = [], [], []
TECH = 'symbolic execution of the Python source with symbolic numpy; obligations decided by Z3 over the reals; counterexamples replayed on the real code'
for p in table.P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                 why_tests_cant=p['why'],
                                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], state=list(p['state']),
                                              observe_at=list(p['observe']), hook_needed=None))))
    if p['id'] in table.NOT_APPLICABLE or p['id'] not in built:
        na.append(dict(property=p['id'], reason=table.NOT_APPLICABLE.get(p['id'], 'check not built yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                       technique=TECH, level='model_checking', level_note=table.NOTES.get(p['id']) or
                       'Every path of the code within the bounds is decided for all values of its inputs: ' + p['text'] + '. Arithmetic is exact real arithmetic; floating-point rounding is outside, except where stated.'))
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
