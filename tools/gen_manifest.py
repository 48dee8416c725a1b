#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(H, 'harness'))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c['technique'], 'level': 'model_checking', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'The check is not built yet.')})
m = {'version': 1, 'setup_cmd': 'g++ --version && python3 -c "import json" && mkdir -p .build evidence',
     'checks': checks, 'not_applicable': na,
     'notes': 'Bounded exhaustive exploration of the real header-only library against small reference models; see DESIGN.md. Known and repaired defects: known_findings.txt.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
