#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import importlib.util,os
NOTES={}
NA={}
exec(open('/verif/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NOTES:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification of the Go code (gocv: verification conditions from go/ssa, discharged by z3/cvc5)",
          "level":"proof","level_note":NOTES[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"no contract of this property is discharged yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks: contracts live in /verif/contracts, the verified text is /repo's current source as compiled by go/ssa on every run. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
