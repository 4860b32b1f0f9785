"""Differential validation of the translator: the same concrete scripts on the real build and on the encoding."""

from engine import build
from engine.irparse import Unsupported
from . import replay, script


def run(mod, tier, rng, progs):
    res = {"validated": 0, "mismatches": [], "skipped": []}
    if not hasattr(mod, "validation"):
        return res
    if hasattr(mod, "validate"):
        return mod.validate(tier, rng, progs, res)
    seen = {}
    for cfg, ops in mod.validation(tier, rng):
        if cfg not in progs:
            continue
        seen.setdefault(cfg, []).append(ops)
    for cfg, scripts in seen.items():
        # one process of the real build per configuration
        try:
            allops = []
            for s in scripts:
                allops.extend(s)
            mine = []
            try:
                for s in scripts:
                    mine.append(script.interp(progs[cfg], s))
            except Unsupported as e:
                res["skipped"].append("%s: %s" % (cfg, e))
                continue
            real = []
            whole = replay.run_script(cfg, allops)
            if any(x.startswith(("SIGNAL", "EXIT")) for x in whole) or len(whole) != sum(len(m) for m in mine):
                # something died: run them one by one
                for s in scripts:
                    real.append(replay.run_script(cfg, s))
            else:
                i = 0
                for m in mine:
                    real.append(whole[i:i + len(m)])
                    i += len(m)
        except (build.BuildError, replay.NoReplay, OSError) as e:
            res["skipped"].append("%s: %s" % (cfg, str(e)[:200]))
            continue
        for s, m, r in zip(scripts, mine, real):
            if "SIGNAL 4" in r:
                res["skipped"].append("%s: CPU lacks the codec" % cfg)
            elif m == r:
                res["validated"] += 1
            elif m and r and m[-1].startswith("SIGNAL") and r[-1].startswith("SIGNAL"):
                res["validated"] += 1
            elif m and m[-1].startswith("SIGNAL"):
                # the encoding sees a bad access that happens not to fault in reality
                res["skipped"].append("%s: memory error seen by the encoding only" % cfg)
            else:
                res["mismatches"].append({"cfg": cfg, "script": [x[:400] for x in s], "encoding": m, "real": r})
    res["skipped"] = sorted(set(res["skipped"]))
    return res
