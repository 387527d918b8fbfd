#!/usr/bin/env python3
# developer helper: known.py PROPERTY COMMIT TEXT - record a repaired defect
import json, sys
f = "/verif/known_findings.json"; d = json.load(open(f)); k = next(iter(d)) if isinstance(d, dict) else None
l = d[k] if k else d
l.append({"property": sys.argv[1], "status": "fixed", "what": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
