#!/usr/bin/env python3
"""addfixed.py PROP COMMIT WHAT: record a repaired defect in known_findings.json"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.json")
k=json.load(open(p))
k.append({"property":sys.argv[1],"status":"fixed","what":"fixed: property=%s %s %s"%tuple(sys.argv[1:4])})
json.dump(k,open(p,"w"),indent=1)
