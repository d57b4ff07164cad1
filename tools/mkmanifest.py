#!/usr/bin/env python3
"""Writes MANIFEST.json from lanes.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lanes import CHECKS, NA
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
NOTE = ('Seeded search over schedules, kernel answers and faults of whole executions of the real code in one process; every history is checked against a reference '
        'model of the file system and of what the kernel delivered. A violation comes with a replay file which repeats exactly. No assurance beyond the seeds explored; '
        'trusts the simulated kernel (compared with the real one where this sandbox lets it run, see DESIGN.md).')
m = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'hooks': {'guard': 'none', 'enable': 'no hook in /repo: the seams are link-time (-Wl,--wrap of library calls) and compile-time (-finstrument-functions), chosen by the build files in /verif', 'source_commits': []},
    'checks': [{
        'property': p,
        'quick_cmd': f'python3 check.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
        'technique': 'deterministic simulation with fault injection' + CHECKS[p].get('technique', ''),
        'level': 'exploration',
        'level_note': CHECKS[p].get('note', '') + NOTE,
    } for p in ids if p in CHECKS],
    'not_applicable': [{'property': p, 'reason': NA.get(p, 'its check is being built')} for p in ids if p not in CHECKS],
}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
