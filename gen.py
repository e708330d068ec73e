#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NA          # noqa: E402
import checks                        # noqa: E402

for m in pkgutil.iter_modules(checks.__path__):
    importlib.import_module('checks.' + m.name)

NOTE = ('universal over inputs at an arbitrary timestep for the array layouts listed in the '
        'evidence file; obligations whose code uses a construct that is not modelled are '
        'reported there as undecided and never as violations')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        if p['id'] not in checks.REG and p['id'] not in NA:
            print('no check yet for', p['id'])
            continue
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant',
                               'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa checks check.py || true',
       'checks': [], 'not_applicable': [], 'notes': 'see DESIGN.md'}
man['setup_cmd'] = 'python3 -c "import ast; [ast.parse(open(f).read()) for f in (\'check.py\', \'gen.py\')]"'
for p in PROPS:
    if p['id'] in checks.REG:
        man['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'technique': p['technique'], 'level': 'other',
            'level_note': p.get('note', NOTE)})
for k in sorted(NA):
    man['not_applicable'].append({'property': k, 'reason': NA[k]})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
