#!/usr/bin/env python3
"""mkbug.py SPEC.py... : turn a bug description into seeded/<id>/ and confirm it.
SPEC defines: id, prop, file, old, new (or edits=[(file,old,new),..]), demo (C++ text), needs, breaks.
Confirmation happens in a scratch copy of the include tree; --full also builds and tests /repo with the patch."""
import sys, os, subprocess, json, shutil, runpy, tempfile
full = "--full" in sys.argv; nocheck = "--nocheck" in sys.argv
DEMO_SH = '''#!/bin/bash
# exits 0 when the property holds, nonzero when it is broken; run with cwd = the repository
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -w -include cstdint -include cmath -I"$repo/include" -isystem /opt/vp/compat -isystem /usr/include/stb -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" @FLAGS@ -lpthread || exit 99
cd "$tmp" && timeout 200 ./demo
'''
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
    s = runpy.run_path(spec); d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    scratch = tempfile.mkdtemp(prefix="bug_"); 
    try:
        run(["cp", "-a", "/repo/include", "/repo/test_inputs", "/repo/.git", "/repo/.gitignore", scratch + "/"])
        ok = True
        for f, old, new in edits:
            p = scratch + "/" + (f if f.startswith("include") else "include/delfem2/" + f)
            t = open(p, newline="").read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.get("nth", 0)
            if t.count(old) == 0 or (t.count(old) > 1 and "nth" not in s): print(s["id"], "old text found", t.count(old), "times in", f); ok = False; break
            parts = t.split(old); t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]); open(p, "w", newline="").write(t)
        if not ok: continue
        diff = subprocess.run(["git", "-C", scratch, "diff", "--binary", "--", "include"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        if "demo" in s: open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", s.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = run(["bash", d + "/demo.sh"], cwd="/repo"); b = run(["bash", d + "/demo.sh"], cwd=scratch)
        print("%-28s demo clean=%d mutant=%d %s" % (s["id"], a.returncode, b.returncode, "" if a.returncode == 0 and b.returncode not in (0, 99) else "BAD " + a.stdout[-800:] + b.stdout[-800:]), flush=True)
        if not nocheck:
            env = dict(os.environ, SIM_REPO=scratch, SIM_BUILD="/tmp/mutbuild", SIM_OUT="/tmp/mutout")
            r = run(["python3", "/verif/sim/check.py", "--property", s["prop"], "--tier", "quick"], env=env)
            print("   check exit %d: %s" % (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "quick seed" in l or "violation" in l or "error" in l][:4]), flush=True)
        if full:
            run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            try:
                x = run(["bash", "/opt/vp/build.sh"]); t = run(["bash", "/opt/vp/test.sh", "/tmp/bug_o.json"])
                base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); res = json.load(open("/tmp/bug_o.json"))
                passed = set(res.get("passed") or [k for k, v in res.items() if v in (True, "pass", "passed")])
                print("   build %d, stable tests failing: %s" % (x.returncode, sorted(base - passed)[:5]), flush=True)
            finally: run(["git", "-C", "/repo", "checkout", "--", "."])
    finally: shutil.rmtree(scratch)
