#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing sim/props_text.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import PROPS
from props_text import TEXT, NOTE, NA
def wr(p, s):
    with open(os.path.join(VERIF, p), "w") as f: f.write(s)
lines = []
for pid, t in TEXT.items():
    if pid not in PROPS and pid not in NA: continue
    d = {"id": pid, "title": t["title"], "statement": t["statement"],
         "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
         "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]],
                     "observe_at": t["observe"], "hook_needed": None}}
    assert len(t["title"]) <= 80, pid
    assert t["statement"].count(". ") <= 2, (pid, "more than three sentences")
    for f in t["files"]: assert os.path.exists("/repo/" + f), f
    lines.append(json.dumps(d))
wr("properties.jsonl", "\n".join(lines) + "\n")
checks = []
for pid in TEXT:
    if pid not in PROPS: continue
    P = PROPS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 sim/check.py --property %s --tier quick" % pid,
      "thorough_cmd": "python3 sim/check.py --property %s --tier thorough" % pid,
      "evidence_file": "evidence/%s.json" % pid,
      "technique": "deterministic simulation with fault injection: seeded search over " + TEXT[pid]["search"],
      "level": P["level"], "level_note": NOTE.get(pid, "") + " Sampled, not exhaustive: a pass means no violation in the seeded runs counted in the evidence file; trusts g++, the simulator in sim/core and the oracle in sim/harness."})
man = {"version": 1, "setup_cmd": "python3 sim/check.py --setup",
  "hooks": {"guard": "none", "enable": "no source hooks: every seam is taken at the link/compile level (operator new, pthread/futex and __tsan_* entry points, fopen/read/write, std::random_device) from the harness build in /verif", "source_commits": []},
  "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
  "notes": "See DESIGN.md. /repo carries only unguarded fix: commits; known_findings.txt records them."}
wr("MANIFEST.json", json.dumps(man, indent=1) + "\n")
print(len(lines), "properties,", len(checks), "checks,", len(NA), "not applicable")
