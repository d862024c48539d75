"""Writes MANIFEST.json from the table of checks and the property list."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from table import CHECKS  # noqa: E402
from reasons import NOT_APPLICABLE, TECHNIQUE  # noqa: E402

properties = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks = []
missing = []
for p in properties:
    i = p['id']
    if i in CHECKS:
        checks.append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3 check.py run ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py run ' + i,
            'technique': TECHNIQUE,
            'level': CHECKS[i]['level'],
            'level_note': CHECKS[i]['note'],
            'evidence_file': 'evidence/%s.json' % i,
        })
    else:
        missing.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check yet.')})

manifest = {
    'version': 1,
    'setup_cmd': 'python3 check.py setup',
    'hooks': {'guard': 'none', 'enable': 'No hooks: every seam is in the harness executable, so /repo is compiled as it is.', 'source_commits': []},
    'checks': checks,
    'not_applicable': missing,
    'notes': 'Replay a violation with: python3 check.py replay <file>. Determinism self-test: python3 check.py determinism.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not applicable')
