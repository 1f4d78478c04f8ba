#!/usr/bin/env python3
"""note.py ID TECHNIQUE NOTE: record a claimed property in tools/notes.json"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"notes.json")
n=json.load(open(p)); n["claimed"][sys.argv[1]]=[sys.argv[2],sys.argv[3]]; json.dump(n,open(p,"w"),indent=1)
