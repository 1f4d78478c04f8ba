#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (design.json, notes.json) + design_tail.md"""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
n = json.load(open(H + "/notes.json")); d = json.load(open(H + "/design.json"))
out = open(H + "/design_head.md").read()
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out += "\n### %s %s\n\n" % (i, p["title"])
    if i in n["claimed"]:
        t, note = n["claimed"][i]
        out += "*Technique*: %s.\n\n*Decides*: %s\n" % (t.rstrip("."), note)
        for k in ("Rule", "Oracle", "Scope", "Cost", "Limits", "False alarms met"):
            if d.get(i, {}).get(k): out += "\n*%s*: %s\n" % (k, d[i][k])
    else: out += "Not claimed: %s\n" % n["na"].get(i, "no check has been built for it")
out += open(H + "/design_tail.md").read()
open(R + "/DESIGN.md", "w").write(out)
