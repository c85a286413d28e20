#!/usr/bin/env python3
"""Generates checks.json and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CHECKS = []
NA = {}

def check(prop, jobs, note, outside="", assumptions=(), technique=None):
    CHECKS.append(dict(prop=prop, technique=technique or "symbolic execution of the Go SSA of /repo, assertions decided by SMT (z3), native replay",
                       level_note=note, outside=outside, assumptions=list(assumptions), jobs=jobs))

def job(h, **k):
    d = dict(harness=h); d.update(k); return d

exec(open(os.path.join(here, "checks_table.py")).read())

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claimed = {c["prop"] for c in CHECKS}
json.dump(CHECKS, open(os.path.join(here, "checks.json"), "w"), indent=1)
man = dict(version=1, setup_cmd="bash ./setup.sh", checks=[], not_applicable=[],
  notes="Every check executes the functions of /repo symbolically from their SSA form, regenerated from the working tree on every run; see DESIGN.md.")
for c in CHECKS:
    man["checks"].append(dict(property=c["prop"], quick_cmd="bash ./check.sh %s quick" % c["prop"],
      thorough_cmd="bash ./check.sh %s thorough" % c["prop"], technique=c["technique"], level="model_checking", level_note=c["level_note"]))
for p in props:
    if p["id"] not in claimed:
        man["not_applicable"].append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(CHECKS), "checks")
