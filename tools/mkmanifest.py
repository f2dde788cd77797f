#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json (claimed ids with notes) and tools/props.py."""
import json,os,subprocess,sys
here=os.path.dirname(os.path.abspath(__file__))
claims=json.load(open(os.path.join(here,'claims.json')))
props=[json.loads(l) for l in open(os.path.join(here,'..','properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claims['claimed']:
        c=claims['claimed'][i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh quick {i}","thorough_cmd":f"bash check.sh thorough {i}",
          "evidence_file":f"evidence/{i}.json","technique":c.get("technique","contract-based deductive verification of the Go SSA (govc: symbolic execution, inferred loop invariants, z3/cvc5)"),
          "level":c.get("level","proof"),"level_note":c["note"]})
    else:
        na.append({"property":i,"reason":claims['not_applicable'].get(i,"no check yet: work in progress")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(here,'..','MANIFEST.json'),'w'),indent=1)
