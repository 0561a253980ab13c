#!/usr/bin/env python3
"""Writes MANIFEST.json from the modules' claims (run by hand when a claim changes)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import runner
AI = 'abstract interpretation of LLVM IR (rely/guarantee slot protocol)'
NOTE = {}
for m in runner.modules():
    for p in m.PROPS:
        if p in m.NOTES:
            NOTE[p] = m.NOTES[p]
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=t, level='other', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na,
               notes='All checks are static: they compile /repo to LLVM IR and analyse that; nothing of /repo is executed.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
