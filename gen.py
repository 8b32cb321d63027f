#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table in props.py."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        assert os.path.exists(os.path.join(here, 'rules', p['id'] + '.py')), p['id']
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: every check compiles the current /repo sources to LLVM bitcode, normalises it and applies property-specific '
              'dataflow/typestate/effect rules; nothing from /repo is executed. No hooks are needed.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
