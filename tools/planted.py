#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/ and the output of tools/detect.sh (files given)."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+) (C\d\d) (caught|MISSED)", l)
        if m:
            res.setdefault(m[1], set()).add((m[2], m[3]))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    by = sorted(c for c, r in res.get(d, ()) if r == "caught")
    rows.append((m["property"], d, m["needs"], ", ".join(by) or "missed"))
rows.sort()
out = ["| bug | property | needs | caught by |", "|-----|----------|-------|-----------|"]
out += ["| %s | %s | %s | %s |" % (d, p, n.replace("|", "/"), c) for p, d, n, c in rows]
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
