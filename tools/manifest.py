#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: python3 tools/manifest.py writes it.
Each entry of CHECKS: id -> (level, technique, note)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CHECKS = {}
exec(open(os.path.join(root, "tools", "checks.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./run.sh selftest", checks=[], not_applicable=[],
  notes="No hooks in /repo: every check copies /repo's non-test sources into a scratch module on each run and, where schedules matter, rewrites the copy onto a controlled scheduler. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        level, tech, note = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
            technique=tech, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "No check registered yet.")))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
