#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the checks' own descriptions, the seeds and design_tail.md."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
man = json.load(open(here + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man["not_applicable"]}
out = [open(here + "/tool/design_head.md").read(), "## Properties\n"]
for p in props:
    i = p["id"]
    out.append("### %s: %s\n" % (i, p["title"]))
    f = here + "/checks/%s.py" % i.lower()
    if os.path.exists(f):
        m = importlib.import_module("checks." + i.lower())
        out.append("*%s* (level: %s)\n" % (m.TECHNIQUE, m.LEVEL))
        out.append(m.EXPLANATION + "\n")
        doc = (m.__doc__ or "").strip()
        if doc:
            out.append("\n".join("> " + l for l in doc.split("\n")) + "\n")
    else:
        out.append("Not applicable: %s\n" % na.get(i, "?"))
out.append("## Planted bugs\n\nAll of them build, pass the repository's tests and fail their own demonstration. "
           "`tool/mkseed.py` confirms each and runs the check.\n\n| seed | caught by | what it breaks | needs |\n|---|---|---|---|")
missed = {}
if os.path.exists(here + "/tool/missed.json"):
    missed = json.load(open(here + "/tool/missed.json"))
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (n, missed.get(n, m["property"]), m["what_it_breaks"], m["needs"]))
out.append(open(here + "/tool/design_tail.md").read())
open(here + "/DESIGN.md", "w").write("\n".join(out))
