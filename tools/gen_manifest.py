#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property with contracts, the rest not applicable."""
import json
T="contract-based deductive verification: contracts on the real Go functions, verification conditions generated from go/ssa of /repo on every run, discharged by z3/cvc5"
LN=json.load(open('/verif/tools/level_notes.json'))
NA=json.load(open('/verif/tools/not_applicable.json'))
checks=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    if p['id'] in NA: continue
    checks.append({"property":p['id'],"quick_cmd":"bash check.sh "+p['id'],"thorough_cmd":"bash check.sh %s thorough"%p['id'],"technique":T,"level":"proof","level_note":LN[p['id']]})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
"notes":"No hooks in /repo are needed. Repairs of genuine defects are listed in known_findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
