#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the harness implements."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={}
exec(open('/verif/tools/techniques.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":t,"level":"exploration","level_note":n})
    else: na.append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
