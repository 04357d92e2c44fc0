"""Writes properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.props import P
TECH = {'cmp': 'abstract interpretation of the class to its transition function; value-numbering normal forms compared with a reference semantics; random interpretation to refute',
        'rule': 'effect / dataflow rules over method summaries'}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if p['na'] or not p['jobs']:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check yet'))
        continue
    kinds = sorted({k for k, _ in p['jobs']})
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                       technique='static analysis: ' + '; '.join(TECH[k] for k in kinds), level='other',
                       level_note=p['note'] or 'Equal normal forms hold for all inputs and histories in real arithmetic; trusted: the analyser\'s model of Python/numpy, the reference semantics in /verif/spec, third-party calls as uninterpreted functions. Unequal forms are reported only with a separating interpretation.'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import numpy, ast"', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
