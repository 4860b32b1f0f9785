"""C19  Encoding and decoding stay right however long the input is: loops by induction instead of unrolling."""

from . import c01, c03, longlib
from .apilib import *
from .frame import Task
from .longlib import confirm, make

LEVEL = "model_checking"
ASSUMPTIONS = ["lengths up to 2^46 (2^30 where addresses have 32 bits)", "input and output buffers do not overlap",
               "clang's IR semantics; the intrinsic and inline-assembly models", "z3 and cvc5"]
BOUNDS = {}
BUDGET = {"quick": 200, "thorough": 2800}


def configs(tier):
    return {c: {} for c in ALLCFG}


# rough seconds: encode, decode of text that is right up to its end, decode of anything
COST = {"armhf": (40, 120, 350), "armhf-noasm": (40, 120, 350), "aarch64": (50, 40, 600), "aarch64-noasm": (10, 40, 600),
        "i686": (8, 20, 40)}


def jobs(cfg, codec, tier, rng):
    """(kind, bytes fed to the stream before or -1 for the one-shot call)"""
    if tier != "quick":
        return [("e", b) for b in (-1, 0, 1, 2)] + [("a", b) for b in (-1, 0, 1, 2, 3)] + [("d", -1)]
    out = [("e", -1)]
    if cfg in ("x64", "s390x") or cfg == "i686" and codec in ("plain", "avx2"):
        out += [("a", -1)]
    if cfg in ("x64", "s390x"):
        out += [("e", rng.choice((1, 2))), ("d", rng.choice((1, 2, 3)))]
    if cfg == "x64-noasm":
        out += [("e", rng.choice((1, 2)))]
    if cfg in ("aarch64", "aarch64-noasm", "armhf"):
        if codec == "plain":
            return [] if cfg != "armhf" else [("a", -1)]
        out += [("d", -1)]
    if cfg == "armhf-noasm" and codec == "plain":
        return []
    return out


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            cost = COST.get(cfg, (10, 10, 20))
            for k, b in jobs(cfg, c, tier, rng):
                out.append(Task(cfg, "task", c, k, b, 170 if tier == "quick" else 1500, cost=cost["eda".index(k)]))
    for cfg in ALLCFG:
        P = 32 if cfg in ("i686", "armhf", "armhf-noasm") else 64
        BOUNDS[cfg] = "every length up to 2^%d, loops by induction" % (30 if P == 32 else 46)
    return out


def task(prog, *a):
    return longlib.task(prog, *a)


def validation(tier, rng):
    for m in (c01, c03):
        for k, x in enumerate(m.validation(tier, rng)):
            if k % 3 == 1:
                yield x
