#!/usr/bin/env python3
"""regenerates MANIFEST.json from checks.json and properties.jsonl"""
import json
conf=json.load(open('/verif/checks.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
   "notes":"check.py decides one property: govc (verification conditions from go/ssa of /repo's working tree against contracts/*.vc, discharged by z3) plus the executable form of the same contracts (rac) for replay and as labelled bounded stand-in. No hooks in /repo."}
for p in props:
    c=conf.get(p['id'])
    if not c or c.get('na'):
        m['not_applicable'].append({"property":p['id'],"reason":(c or {}).get('na','not yet brought under contract')})
        continue
    m['checks'].append({"property":p['id'],"quick_cmd":"python3 check.py %s quick"%p['id'],"thorough_cmd":"python3 check.py %s thorough"%p['id'],
      "technique":c.get('technique',"contract-based deductive verification (go/ssa VC generator, z3)"),"level":c.get('level','proof'),"level_note":c['note'],
      "evidence_file":"evidence/%s.json"%p['id'],**({"theorems":c['theorems']} if 'theorems' in c else {})})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
