#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the check modules present"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NOTES = {}
exec(open(V + '/tools/notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)) and i in NOTES:
        lvl, tech, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt -m kvc.run %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt -m kvc.run %s' % i,
                       'technique': tech, 'level': lvl, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "from kvc import ir; ir.irdump_exe()"', 'checks': checks, 'not_applicable': na,
           'notes': 'Contracts are stated in drivers/*.cpp (entry points over the real code) and checks/*.py (pre/postconditions); kvc/ is the verification-condition generator over the LLVM IR of /repo.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
