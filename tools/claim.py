#!/usr/bin/env python3
"""claim.py Cxx NOTE: claims a property in MANIFEST.json."""
import json,sys,subprocess
LN=json.load(open('/verif/tools/level_notes.json')); NA=json.load(open('/verif/tools/not_applicable.json'))
LN[sys.argv[1]]=sys.argv[2]; NA.pop(sys.argv[1],None)
json.dump(LN,open('/verif/tools/level_notes.json','w'),indent=1,sort_keys=True); json.dump(NA,open('/verif/tools/not_applicable.json','w'),indent=1,sort_keys=True)
subprocess.check_call(['python3','/verif/tools/gen_manifest.py'])
