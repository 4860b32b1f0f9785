#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]     decide one property on /repo's current tree
   check.py --replay FILE                         re-run a recorded counterexample on the real build"""

import importlib
import json
import os
import random
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(100000)

QUICK_BUDGET = 300
THOROUGH_BUDGET = 3000


def main():
    from checks import frame, replay
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            sc = json.load(f)
        mod = importlib.import_module("checks." + sc["property"].lower())
        st, text = getattr(mod, "confirm", replay.confirm)(sc["scenario"])
        print(st, text)
        return 1 if st == "confirmed" else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("checks." + prop.lower())
    budget = getattr(mod, "BUDGET", {}).get(tier, QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET)
    t0 = time.time()
    out = frame.run_property(prop, mod, tier, seed, budget)
    val = {"validated": 0, "mismatches": []}
    if out.confirmed is None:
        from checks import validate
        val = validate.run(mod, tier, random.Random(seed), frame.PROGS)
    ev = frame.summarize(prop, mod, tier, seed, out, val)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: %d/%d tasks, %d paths, %d assertions, %d solver queries (%.1fs), %d traces validated, %.1fs" % (
        prop, tier, c["tasks_done"], c["tasks"], c["states"], c["assertions"], c["solver"].get("queries", 0),
        c["solver"].get("time", 0), val.get("validated", 0), ev["wall_s"]))
    for k in out.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if out.confirmed is not None:
        v = out.confirmed
        path = os.path.join(ROOT, "evidence", "replay-%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "what": v["what"], "task": v["task"], "replay": v.get("replay"),
                       "scenario": v["scenario"]}, f, indent=1)
        print("counterexample: %s [%s]\n  on the real build: %s" % (v["what"], v["task"], v.get("replay")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    rc = 0
    for name, why in out.build_failed.items():
        print("note: configuration %s could not be built: %s" % (name, why[:200]))
    for t, why in c["tasks_not_encodable"][:5]:
        print("note: not encodable: %s: %s" % (t, why[:300]))
    if c["tasks_not_reached"]:
        print("note: %d tasks not finished within the time budget" % c["tasks_not_reached"])
    for v, why in out.unconfirmed[:3]:
        print("error: solver counterexample not reproduced on the real build (%s): %s [%s]" % (why[:200], v["what"], v["task"]))
        rc = 2
    if val.get("mismatches"):
        print("error: encoding and real build disagree: %r" % (val["mismatches"][:2],))
        rc = 2
    if not c["tasks_done"] and not out.known:
        print("error: nothing could be explored")
        rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
