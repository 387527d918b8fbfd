#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks/table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE + "/checks")
import table
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = getattr(table, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in table.CHECKS and i not in NA:
        c = table.CHECKS[i]; mt = any(x.get("mt") for x in c["configs"])
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the repository's LLVM IR with Z3" + (", schedules as symbolic choices (bounded preemptions)" if mt else ""),
            "level": "model_checking",
            "level_note": "Bounded: every input" + (" and schedule" if mt else "") + " within " + (c["bounds"] or "; ".join("%s: %s" % (x["name"], x["bounds"]) for x in c["configs"] if x.get("bounds")) or "the bounds in the evidence file") + ". Counterexamples are replayed on the native build before they are reported; trusts the IR executor, its models of libstdc++/libc/pthreads and Z3."})
    else: na.append({"property": i, "reason": NA.get(i, "No check is registered for it yet.")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed; the checks compile /repo's sources to LLVM IR and natively", "source_commits": []},
  "checks": checks, "not_applicable": na}, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
