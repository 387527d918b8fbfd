#!/usr/bin/env python3
"""mutate.py LIST.py [-j N] [-k NAME]: applies each edit to a scratch copy of /repo and runs the named checks on it.
   LIST.py defines M = [(name, "PROP PROP", [(file, old, new), ...]), ...]; a name starting with '=' must leave the checks quiet (a refactoring)."""
import fcntl, os, subprocess, sys, shutil, runpy, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
free = []; locks = []; lk = threading.Lock()
F = {"B":"src/lamppost/bus/Bus.cpp","BH":"include/lamppost/bus/Bus.h","AC":"src/lamppost/bus/ActionConsumer.cpp","AP":"src/lamppost/bus/ActionProvider.cpp","PU":"src/lamppost/bus/Publisher.cpp","SU":"src/lamppost/bus/Subscriber.cpp",
     "LP":"src/lamppost/LampPost.cpp","PM":"src/lamppost/plugin/PluginManager.cpp","PI":"src/lamppost/plugin/PluginInstance.cpp","PIH":"include/lamppost/plugin/PluginInstance.h","PT":"src/lamppost/plugin/PluginTemplate.cpp","MS":"src/lamppost/messages/Message.cpp","DG":"src/lamppost/messages/Datagram.cpp","DGH":"include/lamppost/messages/Datagram.h",
     "RD":"src/lamppost/messages/RawDatagram.cpp","RDH":"include/lamppost/messages/RawDatagram.h","DA":"include/lamppost/messages/Data.h","RB":"src/lamppost/data/RawBytes.cpp","LG":"src/lamppost/log/Log.cpp","SI":"src/plugins/sysinfo/SysInfo.cpp","LK":"src/plugins/link/Link.cpp","FS":"src/lamppost/Filesystem.cpp","UU":"include/lamppost/utilities/Uuid.h",
     "AM":"src/lamppost/utilities/AntMatcher.cpp","XN":"src/lamppost/platformspecific/xnix/Xnix.cpp","MA":"src/main.cpp","PMC":"include/lamppost/plugin/PluginManagerConfiguration.h","LPC":"include/lamppost/LampPostConfiguration.h","PMH":"include/lamppost/plugin/PluginManager.h"}
def one(m):
    name, props, edits = m; w = None
    with lk: w = free.pop()
    r = "/tmp/mut/%d/repo" % w; out = []
    try:
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        for f, a, b in edits:
            p = r + "/" + F.get(f, f); s = open(p).read()
            if s.count(a) != 1: return name, ["EDIT %d matches of %r" % (s.count(a), a[:60])]
            open(p, "w").write(s.replace(a, b))
        for p in props.split():
            e = dict(os.environ, LPS_REPO=r, LPS_WORK="/tmp/mut/%d/work" % w)
            q = subprocess.run(["timeout", "900", "python3", V + "/run.py", p, "--tier", TIER], cwd=V, env=e, capture_output=True, text=True)
            v = [l for l in q.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("  ")]
            good = (q.returncode == 0) if name[0] == "=" else (q.returncode == 1)
            out.append("%s %s rc=%d %s" % ("ok  " if good else "MISS", p, q.returncode, "" if good and name[0] == "=" else ((" | ".join(v) or q.stdout[-200:] + q.stderr[-300:])[:170 if good else 700])))
    finally:
        with lk: free.append(w)
    return name, out
def main():
    global TIER; a = sys.argv[1:]; j = 3; k = None; TIER = "quick"
    if "-j" in a: i = a.index("-j"); j = int(a[i+1]); del a[i:i+2]
    if "-k" in a: i = a.index("-k"); k = a[i+1]; del a[i:i+2]
    if "--thorough" in a: a.remove("--thorough"); TIER = "thorough"
    ms = [m for f in a for m in runpy.run_path(f)["M"] if not k or k in m[0]]
    for w in range(64):   # slots no other campaign is using
        if len(free) == j: break
        os.makedirs("/tmp/mut/%d" % w, exist_ok=True); r = "/tmp/mut/%d/repo" % w; l = open("/tmp/mut/%d/lock" % w, "w")
        try: fcntl.flock(l, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError: continue
        locks.append(l)
        h = subprocess.run("git -C %s rev-parse HEAD; git -C /repo rev-parse HEAD" % r, shell=True, capture_output=True, text=True).stdout.split()
        if len(h) < 2 or h[0] != h[1]: shutil.rmtree(r, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", r], check=True)
        free.append(w)
    global V; W = "/tmp/mut/verif-%d" % os.getpid(); os.makedirs(W)   # a snapshot: /verif may be edited meanwhile
    for x in ("run.py", "engine", "rt", "harness", "checks", "known_findings.json"): subprocess.run(["cp", "-a", V + "/" + x, W], check=True)
    V = W
    with cf.ThreadPoolExecutor(j) as ex:
        for name, out in ex.map(one, ms): print(name, *["\n   " + o for o in out], flush=True)
    shutil.rmtree(W)
if __name__ == "__main__": main()
