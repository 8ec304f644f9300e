#!/usr/bin/env python3
"""Driver: builds a harness from /repo's working tree, runs seeded simulated executions in
parallel, confirms / shrinks / replays violations, writes the evidence file.

  check.py --property T01 [--tier quick|thorough] [--seed N]
  check.py --replay FILE
  check.py --setup
  check.py --determinism PROPERTY [RUNS]
exit 0: held on everything explored; 1: VIOLATION line printed; 3: error of the check.
"""
import sys, os, subprocess, json, hashlib, time, shutil, tempfile, struct, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("SIM_OUT", VERIF)
sys.path.insert(0, HERE)
from registry import PROPS, HARNESS, MODES

NJ = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fhash(path, memo={}):
    if path not in memo:
        try:
            with open(path, "rb") as f: memo[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError: memo[path] = "missing"
    return memo[path]

def compile_one(src, flags, obj):
    """compile with a content-hash cache over the source and everything it includes"""
    key = hashlib.sha1((src + "\0" + " ".join(flags)).encode()).hexdigest()
    stamp = obj + ".stamp"
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            st = json.load(open(stamp))
            if st["key"] == key and all(fhash(p) == h for p, h in st["deps"].items()): return None
        except Exception: pass
    dep = obj + ".d"
    r = sh(["g++"] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj])
    if r.returncode != 0: return "compile of %s failed:\n%s" % (src, r.stdout[-6000:])
    deps = {}
    txt = open(dep).read().replace("\\\n", " ")
    for p in txt.split(":", 1)[1].split():
        if not p.startswith("/usr/"): deps[p] = fhash(p)
    json.dump({"key": key, "deps": deps}, open(stamp, "w"))
    return None

def build(hname):
    h = HARNESS[hname]; m = MODES[h["mode"]]
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + os.path.join(HERE, "core"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3"] + \
          ["-isystem", "/opt/vp/compat", "-isystem", "/usr/include/stb"]
    jobs = []
    for s in m["core"]:
        src = os.path.join(HERE, "core", s)
        jobs.append((src, m["coreflags"] + ["-I" + os.path.join(HERE, "core")], os.path.join(BUILD, h["mode"] + "_" + s + ".o")))
    for s in h["src"]:
        jobs.append((os.path.join(HERE, "harness", s), m["flags"] + h.get("flags", []) + inc, os.path.join(BUILD, hname + "_" + s + ".o")))
    with ThreadPoolExecutor(NJ) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs: return None, "\n".join(errs)
    exe = os.path.join(BUILD, hname)
    want = hashlib.sha1("".join(fhash(j[2], {}) for j in jobs).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + ".link") and open(exe + ".link").read() == want):
        r = sh(["g++"] + m["ldflags"] + h.get("lflags", []) + [j[2] for j in jobs] + ["-o", exe + ".tmp"] + h.get("libs", []) + m["libs"])
        if r.returncode != 0: return None, "link failed:\n" + r.stdout[-4000:]
        os.replace(exe + ".tmp", exe); open(exe + ".link", "w").write(want)
    return exe, None

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_malloc_fill_size=0:malloc_context_size=4:quarantine_size_mb=16:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["LC_ALL"] = "C"
for k in ("LD_PRELOAD", "SIM_TRACE", "SIM_DUMP", "SIM_NOREEXEC"): ENV.pop(k, None)

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def run(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]; T = dict(P["quick"]) if tier == "quick" else dict(P.get("thorough") or {"runs": 10**9, "time": 600})
    exe, err = build(P["harness"])
    if err: print("ERROR: " + err); return 3
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim_")
    try:
        kn = known_findings(prop)
        args = ["--prop", prop, "--tier", tier]
        if kn:
            kf = os.path.join(tmp, "known"); open(kf, "w").write("".join("%s %s\n" % (a, b) for a, b, _ in kn)); args += ["--known", kf]
        nw = NJ; per = max(1, (T["runs"] + nw - 1) // nw)
        ps = []
        for w in range(nw):
            out = os.path.join(tmp, "w%d" % w)
            ps.append((w, out, subprocess.Popen([exe] + args + ["--seed", str(seed), "--first", str(w), "--stride", str(nw), "--runs", str(per),
                       "--time", str(T["time"]), "--recheck", str(T.get("recheck", 12)), "--out", out], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        viol = None; errs = []; pending = list(ps)
        while pending:
            time.sleep(0.05)
            for p in list(pending):
                rc = p[2].poll()
                if rc is None: continue
                pending.remove(p)
                if rc == 1 and viol is None: viol = p[1] + ".viol"
                elif rc not in (0, 1): errs.append((p[1], rc))
            if viol:
                # let the others finish only if they already did; stop the search
                for p in pending: p[2].terminate()
                for p in pending: p[2].wait()
                pending = []
        agg = {"runs": 0, "nontrivial": 0, "vtime": 0, "steps": 0, "choices": 0, "rechecked": 0}
        faults, probes, scen, known = {}, {}, {}, {}
        states, lh, samples, edges = set(), set(), [], bytearray(1 << 16)
        for w, out, p in ps:
            try: d = json.load(open(out))
            except Exception: continue
            for k in agg: agg[k] += d[k]
            for tgt, src in ((faults, d["faults"]), (probes, d["probes"]), (scen, d["scenarios"]), (known, d["known"])):
                for k, v in src.items(): tgt[k] = tgt.get(k, 0) + v
            if d["rc"] == 3: errs.append((out, d["error"]))
            samples += d["samples"][:2]
            for ext, s in ((".st", states), (".lh", lh)):
                try:
                    b = open(out + ext, "rb").read(); s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                except OSError: pass
            try:
                for i, v in enumerate(open(out + ".ed", "rb").read()):
                    if v: edges[i] = 1
            except OSError: pass
        wall = time.time() - t0; srch = max(1e-3, wall - tb)
        rc = 0; lines = []
        replay = None
        if viol:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            cls = [l for l in open(viol) if l.startswith("class ")][0][6:].strip()
            # fresh process, unshrunk: must fail the same way
            r = sh([exe, "--prop", prop, "--tier", tier, "--replay", viol], env=ENV)
            if r.returncode != 1:
                errs.append(("replay in a fresh process", r.stdout[:1500])); viol = None
            else:
                replay = os.path.join(OUT, "replays", "%s-%s.replay" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", cls)[:60]))
                s = sh([exe, "--prop", prop, "--tier", tier, "--shrink", viol, "--out", replay, "--time", str(T.get("shrink", 25))], env=ENV)
                ok = s.returncode == 0 and sh([exe, "--prop", prop, "--tier", tier, "--replay", replay], env=ENV).returncode == 1
                if not ok: shutil.copy(viol, replay)
                txt = open(replay).read()
                print("violation of %s: class %s" % (prop, cls)); print(txt[:4000])
                lines.append("VIOLATION property=%s replay=%s" % (prop, replay)); rc = 1
        if rc == 0 and errs:
            for e in errs: print("ERROR:", e)
            rc = 3
        if rc == 0 and agg["nontrivial"] == 0:
            print("ERROR: no non-trivial run"); rc = 3
        for a, b, txt in kn: print("KNOWN-FINDING: property=%s scenario=%s class=%s %s" % (prop, a, b, txt))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"],
              "coverage": {
                "evaluations": agg["runs"], "distinct_nontrivial": len(lh), "rule": P["rule"], "samples": samples[:16] or ["none"],
                "simulated_runs_per_hour": int(agg["runs"] / srch * 3600), "seeds_per_hour": int(agg["runs"] / srch * 3600),
                "simulated_time_ticks": agg["vtime"], "simulated_steps": agg["steps"], "decisions_drawn": agg["choices"],
                "faults_injected": faults, "rare_conditions_reached": probes, "runs_per_scenario": scen,
                "distinct_states": len(states), "state_measure": P["measure"],
                "code_edges_reached_hashed": sum(edges), "runs_executed_twice_and_compared": agg["rechecked"],
                "components_real": P["real"], "components_stubbed": P["stub"], "known_finding_hits": known, "build_s": round(tb, 1), "workers": nw},
              "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d runs (%d non-trivial, %d distinct) in %.1fs (+%.1fs build), %d distinct states, faults %s" % (
            prop, tier, seed, agg["runs"], agg["nontrivial"], len(lh), srch, tb, len(states), sum(faults.values())))
        for l in lines: print(l)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(path):
    prop = [l for l in open(path) if l.startswith("property ")][0].split()[1]
    exe, err = build(PROPS[prop]["harness"])
    if err: print(err); return 3
    r = sh([exe, "--prop", prop, "--replay", path], env=ENV); print(r.stdout)
    if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (prop, path))
    return r.returncode

def determinism(prop, runs):
    """same seeds in different processes and at different worker counts: identical logs"""
    exe, err = build(PROPS[prop]["harness"])
    if err: print(err); return 3
    e = dict(ENV); e["SIM_DUMP"] = "1"
    def batch(seed, nw):
        res = {}
        ps = [subprocess.Popen([exe, "--prop", prop, "--seed", str(seed), "--first", str(w), "--stride", str(nw), "--runs", str((runs + nw - 1) // nw),
              "--time", "600", "--recheck", "0", "--out", "/tmp/simdet_%d_%d_%d" % (os.getpid(), nw, w)], env=e, stdout=subprocess.PIPE, text=True) for w in range(nw)]
        for w, p in enumerate(ps):
            for l in p.communicate()[0].splitlines():
                f = l.split(); 
                if f and f[0] == "run" and int(f[1]) < runs: res[int(f[1])] = l
            for x in ("", ".st", ".lh", ".ed", ".viol"):
                try: os.unlink("/tmp/simdet_%d_%d_%d%s" % (os.getpid(), nw, w, x))
                except OSError: pass
        return res
    bad = 0; n = 0
    for seed in (1, 2, 3, 4, 5):
        a = batch(seed, 8); b = batch(seed, 3); n += len(a)
        for k in a:
            if a[k] != b.get(k): bad += 1; print("DIFF", a[k], "|", b.get(k))
    print("determinism %s: %d runs executed in two process layouts, %d differ" % (prop, n, bad))
    return 1 if bad else 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup":
        for t in ("g++",):
            if not shutil.which(t): print("missing", t); sys.exit(3)
        os.makedirs(BUILD, exist_ok=True); print("setup ok"); sys.exit(0)
    if a[0] == "--build":
        rc = 0
        for h in (a[1:] or HARNESS):
            t = time.time(); exe, err = build(h); print(h, "FAILED " + err if err else "ok %.1fs" % (time.time() - t))
            rc |= bool(err)
        sys.exit(rc)
    if a[0] == "--replay": sys.exit(replay(a[1]))
    if a[0] == "--determinism": sys.exit(determinism(a[1], int(a[2]) if len(a) > 2 else 400))
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); prop = None
    i = 0
    while i < len(a):
        if a[i] == "--property": prop = a[i + 1]
        elif a[i] == "--tier": tier = a[i + 1]
        elif a[i] == "--seed": seed = int(a[i + 1])
        i += 2
    sys.exit(run(prop, tier, seed))
