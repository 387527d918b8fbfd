#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' (repeatable file/old/new via JSON on stdin): creates seeded/ID from an edit of /repo, validates it, and runs the property's check on it.
   stdin: JSON {id, property, needs, what, edits:[[file, old, new],...], demo: C++ source or null, demo_sh: optional}"""
import json, os, subprocess, sys
R = "/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exit 0: behaves as documented. Needs /repo built.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=$(find /repo/_build -name 'libLampPost.a' | head -1)
G=$(dirname "$(find /repo/_build -name FBMessage_generated.h | head -1)" 2>/dev/null)
g++ -std=c++14 -g --coverage -fsanitize=%s -include fstream -I/repo/include -I/repo/src -I/repo/_build ${G:+-I$G} -I/usr/include/json-c "$D/demo.cpp" "$L" -o "$T/demo" -ljson-c -lzmq -ldl -lpthread || exit 3
cd "$T" && GCOV_PREFIX="$T" ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def main():
    j = json.load(sys.stdin); d = "%s/seeded/%s" % (V, j["id"]); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout, "repo not clean"
    try:
        for f, a, b in j["edits"]:
            s = open(R + "/" + f).read(); assert s.count(a) >= 1, ("not found", f, a); assert s.count(a) == 1, ("ambiguous", s.count(a), a); open(R + "/" + f, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally: clean()
    for n, t in j.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    if j.get("demo"): open(d + "/demo.cpp", "w").write(j["demo"])
    open(d + "/demo.sh", "w").write(j.get("demo_sh") or DEMO % j.get("san", "address,undefined")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": j["property"], "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)
    validate(j["id"])
def validate(i, check=True):
    d = "%s/seeded/%s" % (V, i); m = json.load(open(d + "/meta.json")); out = []
    try:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
        c = sh("bash %s/demo.sh" % d, cwd=R); out.append("clean demo %d" % c.returncode)
        if c.returncode: print(c.stdout[-600:], c.stderr[-1500:])
        a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stderr
        t = sh("bash /opt/vp/test.sh " + os.environ.get("LPS_WORK", "/tmp") + "_t.json"); r = json.load(open(os.environ.get("LPS_WORK", "/tmp") + "_t.json")); out.append("tests %d/%d" % (len(r["passed"]), len(r["passed"]) + len(r["failed"])))
        if r["failed"] or not r["passed"]: print(r["failed"][:3], t.stdout[-800:], t.stderr[-500:])
        c = sh("bash %s/demo.sh" % d, cwd=R); out.append("patched demo %d" % c.returncode)
        if not c.returncode: print("DEMO DID NOT FAIL")
        if check:
            r = sh("python3 run.py %s --tier quick" % m["property"], cwd=V); v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION") or "  " in l[:3]]; out.append("check rc %d: %s" % (r.returncode, " | ".join(v)[:300] or r.stdout[-300:]))
    finally: clean(); sh("bash /opt/vp/build.sh")
    print(i, "; ".join(out))
if __name__ == "__main__":
    if len(sys.argv) > 1:
        for i in sys.argv[1:]: validate(i)
    else: main()
