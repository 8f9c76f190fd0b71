#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vt import core

checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    if not os.path.exists(os.path.join(ROOT, 'vt', 'props', p['id'].lower() + '.py')):
        continue
    q = core.load_prop(p['id'])
    checks.append({
        'property': p['id'], 'quick_cmd': './check ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': q.technique, 'level': 'exploration',
        'level_note': '%d generated cases in the quick tier, %d in the thorough tier, all judged by the stated oracle; '
                      'no claim beyond the generated inputs' % (q.counts['quick'], q.counts['thorough']),
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'Cases are a pure function of VERIF_SEED; ./check <id> --replay <file> runs a stored case again.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
