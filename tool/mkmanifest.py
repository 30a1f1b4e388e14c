#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks/ and the not-applicable table."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {}
for l in open(os.path.join(V, "not_applicable.txt")):
    if l.strip():
        k, _, r = l.strip().partition(" ")
        NA[k] = r
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p not in NA and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": getattr(m, "TECHNIQUE", "static analysis"),
                       "level": m.LEVEL, "level_note": m.NOTE if hasattr(m, "NOTE") else m.EXPLANATION})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks], "na", [x["property"] for x in na])
