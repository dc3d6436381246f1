#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the table below.
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
CL=json.load(open("tools/claims.json"))
props=[json.loads(l) for l in open("properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CL:
        c=CL[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} thorough",technique=c["technique"],level=c.get("level","exploration"),level_note=c["note"]))
    else: na.append(dict(property=i,reason="no sound check built yet"))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="See DESIGN.md. All checks run ./check.sh <id>, which rebuilds the harness against /repo and runs seeded, deterministic generated cases in worker processes."),open("MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
