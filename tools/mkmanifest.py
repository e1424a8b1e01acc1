#!/usr/bin/env python3
"""writes MANIFEST.json from the claims below and the properties in mkprops"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkprops import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'disjunctive abstract interpretation of the compiler IR (property simulation): '
CLAIMS = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
checks, na = [], []
for p in P:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
