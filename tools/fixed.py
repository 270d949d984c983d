#!/usr/bin/env python3
"""usage: fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, sys
p, c, what = sys.argv[1:4]
f = "/verif/known_findings.json"
d = json.load(open(f))
d["findings"].append({"property": p, "status": "fixed", "commit": c, "keys": [], "what": "fixed: property=%s %s %s" % (p, c, what)})
json.dump(d, open(f, "w"), indent=1)
