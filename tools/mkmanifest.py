#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness registry."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
bounds = json.load(open(here + "/harness/bounds.json"))["bounds"]
checks, na = [], []
for p in props:
    i = p["id"]
    hs = sorted(h for h in bounds if h.startswith("H_%s_" % i))
    if not hs:
        na.append({"property": i, "reason": "no check yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the Go SSA of /repo, path conditions and assertions decided by z3",
        "level": "model_checking",
        "level_note": "Bounded: every value within these bounds is decided, nothing outside them. " +
            "; ".join("%s: %s" % (h[6:], bounds[h]) for h in hs) +
            ". Trusts the engine's Go semantics (150 paths per run are replayed natively and compared), z3, and the harness's specification.",
    })
m = {"version": 1,
     "setup_cmd": "./run.sh --build",
     "checks": checks,
     "not_applicable": na,
     "notes": "engine/ is the symbolic executor, harness/zzh the specifications, known_findings.json the recorded and repaired defects. No hooks in /repo: harnesses enter by overlay."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
