#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
from checks import CHECKS
import checks
NA = getattr(checks, 'NOT_APPLICABLE', {})
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'bash tools/setup.sh',
     'checks': [{'property': p, 'quick_cmd': 'python3 tools/check.py ' + p, 'thorough_cmd': 'python3 tools/check.py ' + p + ' --thorough',
                 'technique': CHECKS[p]['technique'], 'level': CHECKS[p]['level'], 'level_note': CHECKS[p]['note']}
                for p in props if p in CHECKS],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'not claimed yet: the check is still being built')} for p in props if p not in CHECKS]}
if getattr(checks, 'HOOKS', None):
    m['hooks'] = checks.HOOKS
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
