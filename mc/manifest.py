"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
progs = []
for c in CHECKS.values():
    for r in c.get('runs', []):
        progs.append(':'.join([r['variant'], r['harness']] ))
m = {'version': 1,
     'setup_cmd': 'python3 mc/build.py --all',
     'checks': [{'property': i, 'quick_cmd': 'python3 mc/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 mc/check.py ' + i,
                 'technique': CHECKS[i]['technique'], 'level': CHECKS[i]['level'], 'level_note': CHECKS[i]['note']} for i in ids if i in CHECKS],
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'the check is not built yet')} for i in ids if i not in CHECKS],
     'notes': 'No hooks in /repo: the checks replace the OpenMP runtime, allocator, clock, exit and probed commands from outside (mc/rt, mc/stubs). See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
