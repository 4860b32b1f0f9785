"""Running a property's harnesses: build, explore in parallel, replay, evidence."""

import json
import multiprocessing
import os
import random
import sys
import time
import traceback
from engine import build, core, solver, terms as tm
from engine.irparse import Unsupported
from . import replay

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROGS = {}


class Task:
    """one exploration: harness name in the property's module, and its parameters"""
    __slots__ = ("cfg", "fn", "args", "cost")

    def __init__(self, cfg, fn, *args, cost=1):
        self.cfg = cfg
        self.fn = fn
        self.args = args
        self.cost = cost

    def label(self):
        return "%s:%s%r" % (self.cfg, self.fn, self.args)


_mod = None
_deadline = None
_tasks = None
_cross = False


def _run(k):
    t = _tasks[k]
    r = {"k": k, "paths": 0, "transitions": 0, "steps": 0, "obl": 0, "syn": 0, "viol": None, "unsup": None, "late": False,
         "wit": {}}
    if time.time() > _deadline:
        r["late"] = True
        return r
    t0 = time.time()
    q0 = solver.STATS.as_dict()
    prog = PROGS.get(t.cfg)
    enc0 = set(prog.encoded) if prog else set()
    try:
        h = getattr(_mod, t.fn)(prog, *t.args)
        if callable(h):
            res = core.explore(prog, h, deadline=_deadline, opts={"task": t})
        else:
            res = h
        r["paths"] = res.paths
        r["transitions"] = res.transitions
        r["steps"] = res.steps
        r["obl"] = res.obl
        r["syn"] = res.obl_syntactic
        if not res.complete:
            r["late"] = True
        for v in res.values:
            if v is not None:
                r["wit"][v] = r["wit"].get(v, 0) + 1
        if res.violation is not None:
            v = res.violation
            sc = None
            f = v.cx.user.get("scenario") if v.cx is not None else v.extra
            if f is not None:
                sc = f(v) if callable(f) else f
            r["viol"] = {"what": str(v.what), "scenario": sc, "task": t.label()}
    except (Unsupported, solver.Unknown, core.StepLimit, RecursionError) as e:
        r["unsup"] = "%s: %s" % (type(e).__name__, e)
    except Exception:
        r["unsup"] = "internal: " + traceback.format_exc()[-1500:]
        r["internal"] = True
    q1 = solver.STATS.as_dict()
    r["q"] = {a: q1[a] - q0[a] for a in q1}
    r["enc"] = sorted(set(prog.encoded) - enc0) if prog else []
    r["time"] = time.time() - t0
    return r


class Outcome:
    pass


def run_property(prop, mod, tier, seed, budget, jobs=8):
    """mod: configs(tier) -> {cfg name: build kwargs}, tasks(tier, rng) -> [Task], LEVEL_TEXT, BOUNDS, ..."""
    global _mod, _deadline, _tasks
    t0 = time.time()
    rng = random.Random(seed)
    _mod = mod
    _deadline = t0 + budget
    out = Outcome()
    out.notes = []
    cfgs = mod.configs(tier)
    failed = {}
    for name, kw in cfgs.items():
        try:
            PROGS[name] = mod.make(name, kw) if hasattr(mod, "make") else build.program(name, **kw)
        except (build.BuildError, Unsupported) as e:
            failed[name] = str(e)[:600]
    out.build_failed = failed
    tasks = [t for t in mod.tasks(tier, rng) if t.cfg not in failed]
    tasks.sort(key=lambda t: -t.cost)
    _tasks = tasks
    out.results = []
    out.confirmed = None
    out.unconfirmed = []
    out.known = []
    known = load_known(prop)
    tried = 0
    ctx = multiprocessing.get_context("fork")
    t1 = time.time()
    with ctx.Pool(jobs) as pool:
        it = pool.imap_unordered(_run, range(len(tasks)), 1)
        while True:
            try:
                r = it.next(timeout=max(5.0, _deadline + 30 - time.time()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                seen = set(x["k"] for x in out.results)
                for k in range(len(tasks)):
                    if k not in seen:
                        out.results.append({"k": k, "paths": 0, "transitions": 0, "steps": 0, "obl": 0, "syn": 0,
                                            "viol": None, "unsup": None, "late": True, "wit": {}})
                pool.terminate()
                break
            out.results.append(r)
            if "VERIF_TIMES" in os.environ:
                print("%7.1f %s %d %s" % (r.get("time", 0), tasks[r["k"]].label(), r["paths"], list(r["wit"])[:1]), flush=True)
            v = r["viol"]
            if v is None:
                continue
            kf = match_known(known, v)
            if kf is not None:
                if kf not in out.known:
                    out.known.append(kf)
                continue
            if tried >= 12 and not v["scenario"]:
                continue
            tried += 1
            if v["scenario"] is None:
                out.unconfirmed.append((v, "no scenario"))
                continue
            conf = getattr(mod, "confirm", replay.confirm)
            try:
                st, text = conf(v["scenario"])
            except Exception as e:
                st, text = "impossible", "replay failed: %s" % e
            v["replay"] = text
            if st == "confirmed" or (st == "impossible" and v["scenario"].get("interp")):
                out.confirmed = v
                pool.terminate()
                break
            out.unconfirmed.append((v, st + ": " + text))
            if tried > 40:
                pool.terminate()
                break
    out.t_build = t1 - t0
    out.wall = time.time() - t0
    out.tasks = tasks
    return out


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def match_known(known, v):
    for k in known:
        m = k.get("match", {})
        if m and all(m[a] == (v.get("scenario") or {}).get("key", {}).get(a) for a in m):
            return k
    return None


def summarize(prop, mod, tier, seed, out, val):
    res = out.results
    tot = {a: sum(r[a] for r in res) for a in ("paths", "transitions", "steps", "obl", "syn")}
    q = {}
    for r in res:
        for a, b in r.get("q", {}).items():
            q[a] = q.get(a, 0) + b
    enc = {}
    wit = {}
    per = {}
    for r in res:
        t = out.tasks[r["k"]]
        enc.setdefault(t.cfg, set()).update(r.get("enc", ()))
        for a, b in r["wit"].items():
            wit[str(a)] = wit.get(str(a), 0) + b
        p = per.setdefault("%s:%s" % (t.cfg, t.fn), {"tasks": 0, "paths": 0, "seconds": 0.0})
        p["tasks"] += 1
        p["paths"] += r["paths"]
        p["seconds"] = round(p["seconds"] + r.get("time", 0), 2)
    unsup = [(out.tasks[r["k"]].label(), r["unsup"]) for r in res if r["unsup"]]
    late = [out.tasks[r["k"]].label() for r in res if r["late"]]
    samples = []
    done = [r for r in res if r["paths"] and not r["unsup"]]
    for r in done[:: max(1, len(done) // 6)][:8]:
        samples.append({"task": out.tasks[r["k"]].label(), "paths": r["paths"], "obligations": r["obl"],
                        "outcomes": {str(a): b for a, b in r["wit"].items()}})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": val.get("validated", 0),
            "samples": samples,
            "exhaustive": False,
            "rule": "states = symbolic paths explored (each stands for every input that follows it); transitions = "
                    "solver-decided branch decisions and calls along them",
            "tasks": len(out.tasks), "tasks_done": len(done), "tasks_not_reached": len(late),
            "tasks_not_encodable": unsup[:20],
            "assertions": tot["obl"], "assertions_closed_by_term_rewriting": tot["syn"],
            "solver": q, "interpreted_blocks": tot["steps"],
            "functions_encoded": {c: sorted(s) for c, s in enc.items()},
            "outcome_witnesses": wit,
            "per_harness": per,
            "bounds": mod.BOUNDS,
            "translator_validation": val,
            "build_failures": out.build_failed,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(out.wall, 2),
        "violations": 1 if out.confirmed else 0,
    }
    if out.unconfirmed:
        ev["coverage"]["unconfirmed_counterexamples"] = [
            {"what": v["what"], "task": v["task"], "reason": why[:300]} for v, why in out.unconfirmed[:10]]
    return ev
