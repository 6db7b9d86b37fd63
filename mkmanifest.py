"""Writes MANIFEST.json from the properties and the claims in sa/claims.py."""
import json
from sa.claims import CLAIMS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for i in ids:
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m sa.run %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.run %s' % i,
                       'technique': c[0], 'level': 'proof', 'level_note': c[1]})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'check under construction')} for i in ids if i not in CLAIMS]
json.dump({'version': 1, 'setup_cmd': 'python3 -m sa.run setup', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
