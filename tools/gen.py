#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

TECH = 'solver-based: bounded symbolic execution of the real Python code (path exploration, z3 decides every branch and claim, counterexamples replayed on the unpatched code)'
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                                why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                             observe_at=p.get('observe', []), hook_needed=None))) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    assert glob.glob(os.path.join(root, 'checks', p['id'].lower() + '_*.py')), p['id']
    checks.append(dict(property=p['id'], quick_cmd='./run.sh check %s --tier quick' % p['id'],
                       thorough_cmd='./run.sh check %s --tier thorough' % p['id'],
                       technique=TECH, level='other',
                       level_note=p.get('note', 'Bounded symbolic execution of the real functions: the verdict holds for every value within the stated sizes; sizes beyond them are not covered. Reals stand for floating-point numbers.'),
                       evidence_file='evidence/%s.json' % p['id']))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='See DESIGN.md. No hooks in /repo.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    for f in p['files']:
        assert os.path.exists(os.path.join('/repo', f)), f
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(root, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(PROPS), 'properties', len(checks), 'checks')
except ImportError:
    print('no jsonschema')
