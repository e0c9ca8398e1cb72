#!/usr/bin/env python3
"""MANIFEST.json from checks_config.py and properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                   'technique': c.get('technique', 'Verus contracts on functions extracted from the source on every run; concrete replay search'),
                   'level': c.get('level', 'proof'), 'level_note': c['note'], **({'theorems': c['theorems']} if 'theorems' in c else {})})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': '--cfg verif_hooks (rustc cfg)', 'enable': 'RUSTFLAGS="--cfg verif_hooks" when building /verif/harness', 'source_commits': json.load(open(V + '/tools/hooks.json'))},
     'checks': checks, 'not_applicable': na,
     'notes': 'vx extracts the functions under contract from /repo on every run; Verus discharges them; the harness crate replays and searches concrete inputs on the real crates.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
