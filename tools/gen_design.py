#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md: bounds per configuration and the table of planted bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/checks")
import table
def sec(s, a, b, t): i = s.index(a) + len(a); j = s.index(b); return s[:i] + "\n" + t + s[j:]
out = ""
for p, c in table.CHECKS.items():
    if p == "T1": continue
    out += "* **%s**" % p
    for k in c["configs"]:
        e = dict(k.get("engine", {})); et = k.get("engine_thorough", {}); pre = ""
        if k.get("mt") and e.get("preempt", 2) + et.get("preempt", 0): pre = " [preemptions %d (%d)]" % (e.get("preempt", 2), et.get("preempt", e.get("preempt", 2)))
        b = k.get("bounds", "") or ", ".join("%s=%s" % (x, y) for x, y in k.get("params", {}).items()) + (" (%s)" % ", ".join("%s=%s" % (x, y) for x, y in k["params_thorough"].items()) if k.get("params_thorough") else "")
        out += "\n  - `%s`%s %s%s" % (k["name"], " (thorough only)" if k.get("thorough_only") else "", b, pre)
    out += "\n"
seeds = "| planted bug | property | needs | caught by (quick) |\n|---|---|---|---|\n"
res = json.load(open(V + "/seeded/results.json")) if os.path.exists(V + "/seeded/results.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); seeds += "| %s | %s | %s | %s |\n" % (i, d["property"], d["needs"].replace("|", "/"), res.get(i, "?"))
s = open(V + "/DESIGN.md").read(); s = sec(s, "<!-- BOUNDS -->", "<!-- END -->", out); s = sec(s, "<!-- SEEDED -->", "<!-- ENDSEEDED -->", seeds); open(V + "/DESIGN.md", "w").write(s)
