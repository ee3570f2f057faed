#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, glob, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NA = json.load(open(os.path.join(here, "not_applicable.json"))) if os.path.exists(os.path.join(here, "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    fs = glob.glob(os.path.join(here, "harness", "*", "zz_verif_%s_*.go" % i.lower()))
    if not fs or i in NA:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": "symbolic execution of the real code's SSA with SMT (z3): bounded model checking of inputs, faults and schedules",
        "level": "model_checking",
        "level_note": "Every path of the harnesses within the bounds reported in the evidence is decided by the solver for all input values; counterexamples are replayed in the compiled code. Trusts the engine's Go semantics (cross-checked by native runs), go/ssa, z3 and the environment models listed in the evidence; nothing is claimed beyond the bounds.",
    })
m = {"version": 1, "setup_cmd": "cd engine && env -u GOFLAGS GOWORK=off go build -o ../bin/vt .", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses are overlaid on the package at load time (go/packages overlay, go test -overlay)."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
