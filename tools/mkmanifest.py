#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and jobs.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import jobs
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i not in jobs.PROPS:
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique="symbolic execution of the compiled code with SMT (z3) over all input values within stated bounds; counterexamples replayed natively",
        level="model_checking",
        level_note=jobs.PROPS[i]["bounds"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=jobs.NOT_APPLICABLE[i]) for i in ids if i not in jobs.PROPS])
if getattr(jobs, "HOOKS", None):
    m["hooks"] = jobs.HOOKS
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
