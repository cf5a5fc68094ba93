#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the tables below.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
NOTE=json.load(open(V+'/tools/notes.json'))
T="contract-based deductive verification: contracts on the real Go functions, obligations generated from SSA of /repo's source and discharged by z3/cvc5"
checks=[];na=[]
for i in props:
    n=NOTE.get(i)
    if n and n.get("claimed"):
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i+" thorough","technique":n.get("technique",T),"level":n.get("level","proof"),"level_note":n["note"]})
    else:
        na.append({"property":i,"reason":(n or {}).get("reason","no contract written yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"see DESIGN.md; no hooks are needed in /repo, contracts live in /verif/contracts and are laid over the packages at analysis and test time"},open(V+'/MANIFEST.json','w'),indent=1)
