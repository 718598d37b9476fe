#!/usr/bin/env python3
"""addprop.py FILE.py: insert or replace the properties of the list P in FILE.py in properties.jsonl"""
import json, os, runpy, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = H + "/properties.jsonl"
cur = {json.loads(l)["id"]: json.loads(l) for l in open(f) if l.strip()}
for p in runpy.run_path(sys.argv[1])["P"]:
    i, title, st, over, text, why, files, mech, obs = p
    cur[i] = dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs))
with open(f, "w") as o:
    for i in sorted(cur):
        o.write(json.dumps(cur[i], separators=(",", ":")) + "\n")
