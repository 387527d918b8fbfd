#!/usr/bin/env python3
"""apply_mut.py LIST.py NAME DIR: applies one edit of a mutate.py list to a scratch copy of /repo at DIR."""
import sys, runpy, subprocess, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import F
l, k, d = sys.argv[1:4]
if not os.path.isdir(d): subprocess.run(["cp", "-a", "/repo", d], check=True)
subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
m = [x for x in runpy.run_path(l)["M"] if k in x[0]][0]; print(m[0])
for f, a, b in m[2]:
    p = d + "/" + F.get(f, f); s = open(p).read(); assert s.count(a) == 1, (s.count(a), a); open(p, "w").write(s.replace(a, b))
