#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its code (see DESIGN.md).

  run.py PROP [--tier quick|thorough]   run the check of a property
  run.py --replay FILE                  run a recorded counterexample against the natively compiled code
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("LPS_REPO", "/repo")
WORK = os.environ.get("LPS_WORK", HERE + "/.work"); NCPU = int(os.environ.get("LPS_CPUS", os.cpu_count() or 8))
sys.path.insert(0, HERE + "/checks")
T0 = time.time()
def log(*a): print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)
def sh(cmd, **k):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)
    if r.returncode: raise RuntimeError("command failed: %s\n%s" % ((cmd if isinstance(cmd, str) else " ".join(cmd))[-300:], (r.stdout + r.stderr)[-4000:]))
    return r.stdout
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p.encode() if isinstance(p, str) else p); h.update(b"\0")
    return h.hexdigest()[:16]
def rd(p):
    with open(p, "rb") as f: return f.read()

class Lock:
    def __init__(self, p): self.p = p
    def __enter__(self): os.makedirs(os.path.dirname(self.p), exist_ok=True); self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

# ---------- what is compiled ----------
def core_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src/lamppost"):
        if "/platformspecific/osx" in d or "/platformspecific/windows" in d: continue
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(p for p in out if "/platformspecific/" not in p)
GROUPS = {"xnix": lambda: sorted(glob.glob(REPO + "/src/lamppost/platformspecific/xnix/*.cpp")), "core": core_sources, "link": lambda: [REPO + "/src/plugins/link/Link.cpp"], "sysinfo": lambda: [REPO + "/src/plugins/sysinfo/SysInfo.cpp"], "main": lambda: [REPO + "/src/main.cpp"]}
def tree_key():
    h = hashlib.sha256(); h.update(rd(HERE + '/run.py'))
    for base in (REPO + "/src", REPO + "/include", REPO + "/schemas", HERE + "/rt"):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(rd(p))
    return h.hexdigest()[:16]
SHIM = ["-I" + HERE + "/rt/shim"] if os.path.isdir(HERE + "/rt/shim") else []
class Build:
    def __init__(self):
        self.dir = WORK + "/" + tree_key(); os.makedirs(self.dir, exist_ok=True); os.utime(self.dir)
        self.pool = cf.ThreadPoolExecutor(NCPU); self.plock = threading.Lock()
        old = sorted((d for d in glob.glob(WORK + "/*") if os.path.isdir(d) and re.fullmatch("[0-9a-f]{16}", os.path.basename(d))), key=os.path.getmtime)
        for d in old[:-8]: shutil.rmtree(d, ignore_errors=True)
        self.inc = ["-DZMQ_BUILD_DRAFT_API"] + ["-D%s=lps_%s" % (f, f) for f in ("dlopen", "dlsym", "dlclose", "dlerror")] + [ "-I" + self.dir + "/gen", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/json-c", "-I" + HERE + "/rt", "-I" + HERE + "/harness"]
        self.bc = ["-O1", "-DLPS_SYM", "-ffp-contract=off", "-gline-tables-only", "-Xclang", "-disable-llvm-passes", "-include", HERE + "/rt/fix.h", "-emit-llvm"] + self.inc
        self.nat = {"asan": ["-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-include", "fstream"] + self.inc,
                    "mt": ["-O0", "-g", "-fsanitize=thread", "-include", HERE + "/rt/fix.h", "-DLPS_MT", "-D_GLIBCXX_ALWAYS_INLINE=inline"] + self.inc,
                    "plain": ["-O0", "-g", "-include", "fstream"] + self.inc}
    def locked(self, name): return Lock(self.dir + "/" + name + ".lock")
    def cached(self, out, make):
        if not os.path.exists(out):
            with Lock(out + ".lock"):
                if not os.path.exists(out): t = out + ".tmp%d" % os.getpid(); make(t); os.rename(t, out)
        return out
    def gen(self):
        def make(t):
            os.makedirs(t + "/lamppost/schemas"); f = glob.glob(REPO + "/schemas/*.fbs")
            if f: sh(["flatc", "--cpp", "-o", t + "/lamppost/schemas"] + f)
        return self.cached(self.dir + "/gen", make)
    def cc(self, src, flags, out, std="c++14"): return self.cached(out, lambda t: sh(["clang++", "-std=" + std] + flags + ["-c", src, "-o", t]))
    def engine(self):
        b = WORK + "/engine"
        with Lock(WORK + "/engine.lock"): sh(["bash", HERE + "/engine/build.sh", b])
        return b + "/lpsym"
    def objs(self, group, kind):
        d = self.dir + "/" + kind; os.makedirs(d, exist_ok=True)
        flags = self.bc if kind == "bc" else self.nat[kind]
        def one(s):
            o = "%s/%s.o" % (d, s.replace(REPO + "/", "").replace("/", "_")); defs = ["-DLPS_PLUGIN"] if "/plugins/" in s else []
            if s.endswith("/src/main.cpp"): defs = ["-Dmain=lamppost_main"]
            return self.cc(s, flags + defs, o)
        return [self.pool.submit(one, s) for s in GROUPS[group]()]
    def bitcode(self, harness, groups, defs=()):
        d = self.dir + "/h"; os.makedirs(d, exist_ok=True); hp = HERE + "/harness/" + harness
        hh = b"".join(rd(p) for p in sorted(glob.glob(HERE + "/harness/*.h"))); key = sha(rd(hp), hh, ",".join(groups), ",".join(defs)); out = "%s/%s-%s.bc" % (d, harness, key)
        def make(t):
            fs = [f for g in groups for f in self.objs(g, "bc")]
            fh = self.pool.submit(self.cc, hp, self.bc + list(defs) + ["-fno-access-control", "-Wno-everything"], out + ".ho")
            fr = self.pool.submit(self.cc, HERE + "/rt/rt.cpp", self.bc + ["-fno-access-control", "-Wno-everything"], self.dir + "/bc/rt.o", "gnu++17")
            fl = self.pool.submit(self.cc, HERE + "/rt/lib.cpp", self.bc + ["-fno-access-control", "-Wno-everything"], self.dir + "/bc/lib.o", "gnu++17")
            files = [f.result() for f in fs] + [fr.result(), fl.result(), fh.result()]
            sh(["llvm-link"] + files + ["-o", t + ".l"])
            sh(["opt", "-internalize-public-api-list=lps_main", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)", t + ".l", "-o", t]); os.remove(t + ".l")
        return self.cached(out, make)
    def native(self, harness, groups, kind, defs=()):
        d = self.dir + "/h"; os.makedirs(d, exist_ok=True); hp = HERE + "/harness/" + harness
        hh = b"".join(rd(p) for p in sorted(glob.glob(HERE + "/harness/*.h"))); key = sha(rd(hp), hh, ",".join(groups), kind, ",".join(defs)); out = "%s/%s-%s.%s" % (d, harness, key, kind)
        def make(t):
            os.makedirs(self.dir + "/" + kind, exist_ok=True)
            fs = [f for g in groups for f in self.objs(g, kind)]; rf = ["-O1", "-g", "-I" + HERE + "/rt"] + (["-fsanitize=address"] if kind == "asan" else [])
            fh = self.pool.submit(self.cc, hp, self.nat[kind] + list(defs) + ["-fno-access-control", "-Wno-everything"], out + ".ho")
            rts = [self.pool.submit(self.cc, HERE + "/rt/" + r, rf, "%s/%s/%s.o" % (self.dir, kind, r)) for r in ("native_rt.cpp", "native_sched.cpp" if kind == "mt" else "native_single.cpp")]
            files = [f.result() for f in fs] + [r.result() for r in rts] + [fh.result()]
            sh(["clang++", "-rdynamic"] + (["-fsanitize=address,undefined", "-fno-sanitize=vptr"] if kind == "asan" else []) + files + ["-o", t, "-lpthread", "-ldl", "-Wl,--unresolved-symbols=report-all"] + (["-ljson-c"] if not any("NOJSON" in x for x in defs) else []))
        return self.cached(out, make)

# ---------- running ----------
def engine_args(c, tier):
    p = dict(c.get("params", {})); e = dict(c.get("engine", {}))
    if tier == "thorough": p.update(c.get("params_thorough", {})); e.update(c.get("engine_thorough", {}))
    return p, e
def run_engine(eng, bc, params, opts, out, workers):
    for f in glob.glob(out + ".*"): os.remove(f)
    o = {"time": 60, "preempt": 2, "timeouts": 1, "max-idle": 150, "races": 1, "spurious": 0, "max-viol": 6, "samples": 4}; o.update(opts)
    cmd = [eng, bc, "--out=" + out, "--workers=%d" % workers] + ["--%s=%s" % kv for kv in o.items()] + ["-D%s=%s" % kv for kv in params.items()]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=o["time"] + 120)
    if r.returncode: raise RuntimeError("engine failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-2000:]))
    T = {}; W = {}; V = {}; C = {}; S = []; F = set()
    fs = [out] if workers == 1 and os.path.exists(out) else sorted(glob.glob(out + ".*"))
    for f in fs:
        d = json.load(open(f))
        for k in ("paths", "pruned", "incomplete", "violating", "steps", "forks", "asserts", "assert_queries", "queries", "z3calls", "sat", "unsat", "unknown", "cache_hits", "z3time"): T[k] = T.get(k, 0) + d[k]
        for k in ("time", "max_steps", "max_pc", "max_trail", "maxq", "functions_total"): T[k] = max(T.get(k, 0), d[k])
        T["timed_out"] = bool(T.get("timed_out", False) or d["timed_out"])
        for k, v in d["why"].items(): W[k] = W.get(k, 0) + v
        for v in d["violations"]: V.setdefault(v["message"], v)
        for k, v in d["covers"].items(): C.setdefault(k, v)
        S += d["samples"]; F |= set(d["functions"]); os.remove(f)
    return dict(T=T, why=W, violations=list(V.values()), covers=C, samples=S, functions=sorted(F), opts=o)
def replay(exe, inputs, params, opts, valgrind=False, timeout=60):
    import tempfile
    d = tempfile.mkdtemp(prefix="lps"); 
    try:
        with open(d + "/w", "w") as f: f.write("".join("%s %s\n" % (n, h) for n, h in inputs))
        pr = dict(params); pr.update({"!preempt": opts["preempt"], "!timeouts": opts["timeouts"], "!idle": opts["max-idle"], "!races": opts["races"], "!spurious": opts.get("spurious", 0)})
        env = dict(os.environ, LPS_REPLAY=d + "/w", LPS_OBS=d + "/o", LPS_PARAMS=" ".join("%s=%s" % kv for kv in pr.items()), ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1:alloc_dealloc_mismatch=1", UBSAN_OPTIONS="exitcode=99:print_stacktrace=1")
        cmd = (["valgrind", "-q", "--error-exitcode=99"] if valgrind else []) + [exe]
        try: r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired: return "timeout", "", []
        obs = []
        if os.path.exists(d + "/o"):
            for l in open(d + "/o", errors="replace"): obs.append(l.rstrip("\n").split(" ", 1))
        return r.returncode, (r.stdout + r.stderr), obs
    finally: shutil.rmtree(d, ignore_errors=True)
NOTCONF = (0, 93, 95, 96, 98)
def confirm(B, c, v, params, opts):
    """Replays a counterexample against the natively compiled code; returns (confirmed, text)."""
    kind = "mt" if v["mt"] else "asan"; harness, groups, defs = c["harness"], c.get("groups", ["core"]), c.get("defs", ())
    if "uninitialised" in v["message"] and not v["mt"]:
        exe = B.native(harness, groups, "plain", defs); rc, out, _ = replay(exe, v["inputs"], params, opts, valgrind=True)
    else: exe = B.native(harness, groups, kind, defs); rc, out, _ = replay(exe, v["inputs"], params, opts)
    if rc == "timeout": return ("termination" in v["message"] or "deadlock" in v["message"] or "hang" in v["message"] or "recursion" in v["message"]), "native run did not end"
    if "ReserveShadowMemory" in out: return False, "native run could not start: " + out[-300:]
    return rc not in NOTCONF, "native exit %s: %s" % (rc, out[-1500:])
def known_findings():
    p = HERE + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []
def match_known(prop, config, v):
    for k in known_findings():
        if k.get("status") == "fixed" or k["property"] != prop: continue
        if k.get("config") and k["config"] != config: continue
        if all(re.search(p, v["message"] + " @ " + v["stack"]) for p in k["match"]): return k
    return None
def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return do_replay(a[1])
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--config") + 1] if "--config" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import table
    P = table.CHECKS[prop]; confs = [c for c in P["configs"] if (tier == "thorough" or not c.get("thorough_only")) and (only is None or c["name"] == only)]
    B = Build(); B.gen()
    feng = cf.ThreadPoolExecutor(1).submit(B.engine)
    hset = []
    for c in confs:
        h = (c["harness"], tuple(c.get("groups", ["core"])), tuple(c.get("defs", ())))
        if h not in hset: hset.append(h)
    bcs = {h: B.bitcode(h[0], list(h[1]), h[2]) for h in hset}
    eng = feng.result(); log("built", prop)
    # native builds proceed in the background
    npool = cf.ThreadPoolExecutor(2); vpool = cf.ThreadPoolExecutor(NCPU); nats = {}
    def nat(h, kind):
        k = (h, kind)
        if k not in nats: nats[k] = npool.submit(B.native, h[0], list(h[1]), kind, h[2])
        return nats[k]
    for h in hset:
        kinds = {("mt" if c.get("mt") else "asan") for c in confs if (c["harness"], tuple(c.get("groups", ["core"])), tuple(c.get("defs", ()))) == h}
        for k in kinds: nat(h, k)
    tot = {}; confirmed = []; unconfirmed = []; known = []; funcs = set(); samples = []; validated = 0; mism = []; cov = []; cfgs = []; ncpu = NCPU
    for c in confs:
        params, eopts = engine_args(c, tier); h = (c["harness"], tuple(c.get("groups", ["core"])), tuple(c.get("defs", ())))
        if tier == "quick" and "time" in eopts: pass
        r = run_engine(eng, bcs[h], params, eopts, "%s/run-%s-%s-%d" % (B.dir, prop, c["name"], os.getpid()), ncpu); o = r["opts"]
        log("%s/%s: paths %d pruned %d incomplete %d violating %d queries %d (z3 %d, %.1fs) steps %.1fM max %dk/%d time %.1fs%s %s" % (prop, c["name"], r["T"]["paths"], r["T"]["pruned"], r["T"]["incomplete"], r["T"]["violating"], r["T"]["queries"], r["T"]["z3calls"], r["T"]["z3time"], r["T"]["steps"] / 1e6, r["T"]["max_steps"] // 1000, r["T"]["max_trail"], r["T"]["time"], " TIME-LIMIT" if r["T"]["timed_out"] else "", json.dumps(r["why"]) if r["why"] else ""))
        for k, v in r["T"].items():
            if k in ("max_steps", "max_pc", "max_trail", "maxq", "functions_total"): tot[k] = max(tot.get(k, 0), v)
            elif k == "timed_out": tot[k] = tot.get(k, False) or v
            else: tot[k] = tot.get(k, 0) + v
        funcs |= set(r["functions"])
        want = set(c.get("covers", [])) - set(r["covers"])
        if want: cov.append("%s: not reached: %s" % (c["name"], ", ".join(sorted(want)))); log("COVER missing", c["name"], sorted(want))
        cfgs.append({"config": c["name"], "harness": c["harness"], "bounds": c.get("bounds", ""), "parameters": params, "engine": {k: o[k] for k in ("time", "preempt", "timeouts", "max-idle", "spurious")} if c.get("mt") else {"time": o["time"]}, "paths": r["T"]["paths"], "pruned_by_assumption": r["T"]["pruned"], "not_followed_to_the_end": r["T"]["incomplete"], "reasons": r["why"], "exhaustive_within_bounds": not r["T"]["timed_out"] and not r["T"]["incomplete"], "queries": r["T"]["queries"], "solver_s": round(r["T"]["z3time"], 2), "reached": sorted(r["covers"])})
        for v in r["violations"]:
            k = match_known(prop, c["name"], v)
            if k: known.append(k); continue
            try: ok, txt = confirm(B, c, v, params, o)
            except Exception as e: ok, txt = False, "replay failed: %s" % e
            rec = dict(property=prop, config=c["name"], harness=c["harness"], groups=c.get("groups", ["core"]), defs=list(c.get("defs", ())), params=params, opts=o, message=v["message"], stack=v["stack"], mt=v["mt"], inputs=v["inputs"], native=txt)
            (confirmed if ok else unconfirmed).append(rec)
            log(("CONFIRMED " if ok else "UNCONFIRMED ") + v["message"], "\n    at", v["stack"][:700], "\n    inputs", [x for x in v["inputs"] if x[0] != "!sched"][:24], "\n    native:", "; ".join(l.strip() for l in txt.split("\n") if re.search("LPS-|ERROR: |runtime error|native exit", l))[:300])
        # agreement of the executor with the compiled code on sampled paths
        S = r["samples"]; step = max(1, len(S) // c.get("validate", 6)); picks = S[::step][:c.get("validate", 6)]
        def one(s):
            exe = nat(h, "mt" if s["mt"] else "asan").result(); rc, out, obs = replay(exe, s["inputs"], params, o); return s, rc, out, obs
        if not r["violations"] or len(confs) > 1:
            for s, rc, out, obs in vpool.map(one, picks):
                if rc == 0 and obs == [list(x) for x in s["obs"]]: validated += 1
                else: mism.append({"config": c["name"], "exit": rc, "output": out[-400:], "inputs": s["inputs"][:(400 if os.environ.get("LPS_DEBUG") else 40)], "expected": s["obs"][:20], "got": obs[:20]}); log("DISAGREEMENT", c["name"], rc, out[-600:], s["obs"][:8], obs[:8])
        for s in S[:2]: samples.append({"config": c["name"], "inputs": [x for x in s["inputs"] if x[0] != "!sched"][:40], "schedule": "".join("%d" % int(x[1][:2], 16) for x in s["inputs"] if x[0] == "!sched"), "observed": s["obs"][:12]})
        if confirmed and tier == "quick": break
    os.makedirs(HERE + "/replays", exist_ok=True); os.makedirs(HERE + "/evidence", exist_ok=True)
    paths = []
    for i, v in enumerate(confirmed):
        p = "%s/replays/%s-%d.json" % (HERE, prop, i); json.dump(v, open(p, "w"), indent=1); paths.append(p)
    dem = sh(["c++filt", "-p"], input="\n".join(sorted(funcs))).split("\n") if funcs else []
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 1), "violations": len(confirmed),
          "coverage": {"states": tot.get("paths", 0) + tot.get("pruned", 0), "transitions": tot.get("steps", 0), "traces_validated_against_impl": validated, "samples": samples[:12],
                       "exhaustive": not tot.get("timed_out") and not tot.get("incomplete"),
                       "explanation": "states = symbolic paths (each stands for every input value and schedule satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated = sampled paths whose witness was run against the natively compiled repository with identical observations. " + P.get("bounds", ""),
                       "configurations": cfgs, "functions_encoded": sorted(set(dem)), "functions_encoded_total": tot.get("functions_total", 0), "assertions_checked": tot.get("asserts", 0), "assertion_queries": tot.get("assert_queries", 0), "solver_queries": tot.get("queries", 0), "solver_calls": tot.get("z3calls", 0), "solver_sat": tot.get("sat", 0), "solver_unsat": tot.get("unsat", 0), "solver_unknown": tot.get("unknown", 0), "solver_s": round(tot.get("z3time", 0), 2), "longest_query_s": round(tot.get("maxq", 0), 2),
                       "vacuity": cov, "disagreements_with_native": mism[:5], "unconfirmed": [{k: u[k] for k in ("config", "message", "stack", "native")} for u in unconfirmed[:5]], "known_findings": [k["what"] for k in known]},
          "assumptions": table.ASSUMPTIONS + P.get("assumptions", [])}
    if not paths or True: json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    seen = set()
    for k in known:
        if k["what"] not in seen: seen.add(k["what"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in unconfirmed: print("note: not reproduced natively and not reported: %s" % u["message"])
    for m in cov: print("note: " + m)
    if mism: print("note: %d sampled paths disagree with the native run" % len(mism))
    if not confirmed: print("OK property=%s paths=%d queries=%d validated=%d wall=%.0fs%s" % (prop, tot.get("paths", 0), tot.get("queries", 0), validated, time.time() - T0, "" if ev["coverage"]["exhaustive"] else " (not exhaustive)")); return 0
    for v, p in zip(confirmed, paths):
        print("  %s: %s\n    at %s" % (v["config"], v["message"], v["stack"][:400])); print("VIOLATION property=%s replay=%s" % (prop, p))
    return 1
def do_replay(path):
    v = json.load(open(path)); B = Build(); B.gen(); c = dict(harness=v["harness"], groups=v["groups"], defs=v["defs"])
    ok, txt = confirm(B, c, v, v["params"], v["opts"]); print(v["message"]); print(txt); print("reproduced" if ok else "not reproduced"); return 1 if ok else 0
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
