#!/usr/bin/env python3
"""Rewrite the per-property section of DESIGN.md from tools/checks.py, properties.jsonl and the last evidence files."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in open(d + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i not in CHECKS:
        out.append("**%s %s.** Not claimed: %s\n" % (i, p["title"], NOT_APPLICABLE.get(i, "no check built yet; nothing is claimed"))); continue
    c = CHECKS[i]; t = ["**%s %s.** *%s.*" % (i, p["title"], c["technique"])]
    if c.get("rule"): t.append("Judged: %s." % c["rule"].rstrip("."))
    for q in c["parts"]:
        t.append("\n  - `%s` (%s, %s): %s" % (q["name"], q["config"], " ".join(q["src"]), q.get("bounds", "")))
    out.append(" ".join(t) + "\n")
s = open(d + "/DESIGN.md").read()
a, b = "<!-- properties -->", "<!-- /properties -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(d + "/DESIGN.md", "w").write(s)
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(d + "/seeded")) if os.path.isdir(d + "/seeded") else []:
    m = json.load(open(d + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], str(m["needs"]).replace("|", "/"), m.get("caught_by") or "not caught"))
s = open(d + "/DESIGN.md").read(); a, b = "<!-- seeded -->", "<!-- /seeded -->"
open(d + "/DESIGN.md", "w").write(s[:s.index(a) + len(a)] + "\n\n" + "\n".join(rows) + "\n\n" + s[s.index(b):])
