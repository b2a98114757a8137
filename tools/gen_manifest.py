#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "level_notes.json")))
built = set()
for f in glob.glob(os.path.join(here, "harness", "*", "zz_vx_P*.go")):
    built.add(os.path.basename(f)[len("zz_vx_"):][:3])
common = ("Bounded symbolic execution of the Go SSA of the current source; every assertion is decided by z3 over all "
          "values within the bounds listed in the evidence file; counterexamples are replayed natively before being "
          "reported. Trusted: the Go front end (x/tools/go/ssa), the interpreter, the SMT solver and the environment "
          "models listed in DESIGN.md (cryptography, encoding/json, files, gRPC, raft). ")
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "bounded symbolic execution of the real code's SSA, assertions decided by an SMT solver (z3)",
            "level": "model_checking", "level_note": common + notes.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get("NA_" + i, "no check built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
