#!/opt/veriftools/pyvenv/bin/python3
"""Regenerates properties.jsonl and MANIFEST.json from vc/props.py and vc/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import props, plan
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P: f.write(json.dumps(p) + '\n')
checks = []; na = []
for p in props.P:
    i = p['id']
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd='python3-vt vc/run.py check ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt vc/run.py check ' + i,
                           evidence_file='evidence/%s.json' % i, technique=q.get('technique', plan.TECH), level=q.get('level', 'proof'), level_note=q['note'] + ' ' + plan.COMMON))
        if q.get('level', 'proof') == 'proof': checks[-1]['theorems'] = q['theorems'] if 'theorems' in q else ['vcproof__' + u[1] for u in q['units']]
    else: na.append(dict(property=i, reason=plan.NA.get(i, 'not claimed yet: contracts for this part are still being written')))
json.dump(dict(version=1, setup_cmd='python3-vt vc/selftest.py', checks=checks, not_applicable=na,
               notes='Deductive verifier in /verif/vc working on the LLVM IR of the real functions in /repo; see DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
