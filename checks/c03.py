"""C03  Well-formed base64 decodes to exactly the bytes it stands for."""

from engine import core, terms as tm
from . import longlib, spec
from .apilib import *
from .frame import Task
from .longlib import confirm, long, make

ASSUMPTIONS = ["input lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def lengths(codec, tier, rng):
    """(characters, number of '=')"""
    out = []
    short = 140 if tier == "quick" else 1500
    for m in range(0, short + 1, 4):
        out.extend((m, p) for p in (0, 1, 2) if m or not p)
    big = (272, 288, 304, 528, 544, 560, 640, 1024, 1040, 1088)
    for b in big:
        for d in ((0, 12) if tier == "quick" else range(-24, 64, 4)):
            out.append((b + d, (b // 4 + d) % 3))
    for _ in range(6 if tier == "quick" else 60):
        out.append((4 * rng.randrange(36, 300), rng.randrange(3)))
    if codec == "plain":
        out = [x for x in out if x[0] <= (320 if tier == "quick" else 1500)]
    out += [(2700, 1), (4400, 0)] if tier == "quick" else [(m, m // 4 % 3) for m in range(1504, 4500, 68)] + [(7000, 0)]
    return sorted(set(out))


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            ls = lengths(c, tier, rng)
            BOUNDS["%s/%s" % (cfg, c)] = "%d (length, padding) shapes up to %d characters, all symbols" % (len(ls), ls[-1][0])
            rng.shuffle(ls)
            k = max(1, len(ls) // 40)
            for i in range(k):
                part = ls[i::k]
                out.append(Task(cfg, "many", c, tuple(part), cost=sum(x for x, _ in part)))
    return out + longlib.extra("C03", tier, rng, BOUNDS)


def many(prog, codec, ls):
    return core.merge(core.explore(prog, one(prog, codec, n, p)) for n, p in ls)


def one(prog, codec, n, pad):
    olen = n // 4 * 3 - pad

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)
        s = sym("s", n - pad)
        for x in s:
            cx.assume(spec.is_valid(x))
        txt = s + [spec.PAD] * pad
        src = e.buf("src", txt)
        out = e.buf("out", olen + 64)

        def expect(m):
            r, b = spec.ref_decode(model_bytes(m, txt))
            return ["r %d %d" % (r, len(b)), "d " + hexs(b)]

        def sc(v):
            d = scenario(e, expect)(v)
            if not d["ops"][-1].startswith("dump"):
                d["ops"].append("dump 1 0 %d" % olen)
            return d
        cx.user["scenario"] = sc
        r, L = e.oneshot("d", src, 0, n, out, 0, FLAG[codec])
        e.dump(out, 0, olen)
        cx.prove(tm.eq(32, r, 1), "%s: %d valid characters with %d pads accepted" % (codec, n, pad))
        cx.prove(tm.eq(cx.P, L, olen), "%s: output length of %d characters, %d pads" % (codec, n, pad))
        ref = spec.RefDec(cx)
        ref.feed(txt)
        assert len(ref.out) == olen
        for i, (a, b) in enumerate(zip(cx.bytes_at(out[1].base, olen), ref.out)):
            cx.prove(tm.eq(8, a, b), "%s: output byte %d of %d characters" % (codec, i, n))
        return codec
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                yield cfg, script_dec(rng, c, n & ~3)
