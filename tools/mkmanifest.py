#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from run.py's TABLE and the notes below."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
import run
TECH=json.load(open(os.path.join(V,"tools","notes.json")))
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in run.TABLE:
        t=TECH["claimed"][i]
        checks.append(dict(property=i,quick_cmd="python3 run.py %s quick"%i,thorough_cmd="python3 run.py %s thorough"%i,
          evidence_file="evidence/%s.json"%i,technique=t[0],level="other",level_note=t[1]))
    else:
        na.append(dict(property=i,reason=TECH["na"].get(i,"no static check has been built for it yet")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
  notes="All checks are static: /repo's current sources are compiled to LLVM IR on every run (nothing is executed), normalised by engine/irdump.cpp and decided by repository-specific dataflow rules in checks/. See DESIGN.md.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
