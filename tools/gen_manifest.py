#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist in mc/checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
info = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")) and i in info:
        t, note = info[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="No check has been built for it."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Every check copies /repo's working tree to a scratch directory, builds the extension there with the project's own setup.py and explores that build. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
