#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from DESIGN.in.md, properties.jsonl, known_findings.json, design_notes.py and seeded/results.txt."""
import json, os, sys
V = "/verif"
sys.path[:0] = [V, V + "/tools"]
from jobs import CHECKS
from design_notes import NOTES
s = open(V + "/tools/DESIGN.in.md").read()
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    out.append("### %s %s (%s)\n\n%s\n\nTechnique: %s. Jobs: %s.\n" % (i, p["title"], c["level"], NOTES.get(i, ""), c["technique"],
        ", ".join("`%s` (budget %d s / %d s)" % (j["name"], *j["budget"]) for j in c["jobs"])))
s = s.replace("@@PROPS@@", "\n".join(out))
f = json.load(open(V + "/known_findings.json"))["findings"]
s = s.replace("@@FINDINGS@@", "\n".join("* %s (%s) %s" % (x["property"], x["status"], x["what"].replace("fixed: property=%s " % x["property"], "")) for x in f))
r = V + "/tools/seeded_results.txt"
rows = []
res = dict(l.split(None, 1) for l in open(r)) if os.path.exists(r) else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), res.get(d, "?").strip()))
s = s.replace("@@SEEDED@@", "| id | property | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
