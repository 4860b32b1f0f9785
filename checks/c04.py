"""C04  Decoding accepts exactly the RFC 4648 grammar, for every input, in every codec and build."""

from engine import core, terms as tm
from . import longlib, spec
from .apilib import *
from .frame import Task
from .longlib import confirm, long, make

LEVEL = "model_checking"
ASSUMPTIONS = ["input lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def shapes(cfg, codec, tier, rng):
    """(length, lo, hi): characters in [lo, hi) are arbitrary, the others range over the alphabet"""
    simd = codec != "plain"
    full = (68 if simd else 48) if tier == "quick" else (210 if simd else 120)
    if cfg in ("x64-noasm", "i686") and tier == "quick":
        full = 50
    out = [(n, 0, n) for n in range(full + 1)]
    # longer inputs: a window of arbitrary characters over the unrolled vector loops, and at the end
    if tier == "quick":
        for _ in range(2 if simd else 1):
            n = rng.randrange(70, 130)
            lo = rng.randrange(0, n - 24)
            out.append((n, lo, lo + 24))
        for n in (302 + rng.randrange(40), 540 + rng.randrange(80)) if simd else (150,):
            lo = rng.randrange(0, n - 24)
            out.append((n, lo, lo + 3))
            out.append((n, n - 3, n))
    else:
        for n in (300, 301, 303, 320, 545, 580, 600, 641, 1100):
            if not simd and n > 400:
                continue
            for lo in range(0, n, 24):
                out.append((n, lo, min(n, lo + 24)))
    return out


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            ss = shapes(cfg, c, tier, rng)
            fulls = [n for n, lo, hi in ss if hi - lo == n]
            BOUNDS["%s/%s" % (cfg, c)] = "every input of up to %d characters; %d windows of arbitrary characters in valid " \
                "text of up to %d characters" % (max(fulls), len(ss) - len(fulls), max(n for n, _, _ in ss))
            small = [x for x in ss if x[0] * (x[2] - x[1]) <= 1600]
            for x in ss:
                if x not in small:
                    out.append(Task(cfg, "many", c, (x,), cost=x[0] * (x[2] - x[1] + 2)))
            rng.shuffle(small)
            k = max(1, len(small) // 12)
            for i in range(k):
                part = small[i::k]
                out.append(Task(cfg, "many", c, tuple(part), cost=sum(n * (b - a + 2) for n, a, b in part)))
    return out + longlib.extra("C04", tier, rng, BOUNDS)


def many(prog, codec, ss):
    return core.merge(core.explore(prog, one(prog, codec, *x)) for x in ss)


def one(prog, codec, n, lo=0, hi=None):
    hi = n if hi is None else hi
    cap = n // 4 * 3 + 3

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)
        s = sym("s", n)
        for x in s[:lo] + s[hi:]:
            cx.assume(spec.is_valid(x))
        src = e.buf("src", s)
        out = e.buf("out", cap + 64)

        def expect(m):
            r, b = spec.ref_decode(model_bytes(m, s))
            return ["r %d %d" % (r, len(b))]
        def sc(v):
            d = scenario(e, expect)(v)
            b = spec.ref_decode(model_bytes(v.model, s))[1]
            d["ops"].append("dump 1 0 %d" % len(b))
            d["expect"].append("d " + hexs(b))
            return d
        cx.user["scenario"] = sc
        r, L = e.oneshot("d", src, 0, n, out, 0, FLAG[codec])
        ref = spec.RefDec(cx)
        want = ref.feed(s) if n else 1
        if not ref.whole():
            want = 0
        cx.prove(tm.eq(32, r, want), "%s: result for %d characters" % (codec, n))
        cx.prove(tm.eq(cx.P, L, len(ref.out)), "%s: output length for %d characters" % (codec, n))
        for i, (a, b) in enumerate(zip(cx.bytes_at(out[1].base, len(ref.out)), ref.out)):
            cx.prove(tm.eq(8, a, b), "%s: output byte %d of %d characters" % (codec, i, n))
        return "%d" % want
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                yield cfg, script_dec(rng, c, n)
