"""C01  One-shot encoding equals RFC 4648 for every input, in every codec and build."""

from engine import core, terms as tm
from . import longlib, spec
from .apilib import *
from .frame import Task
from .longlib import confirm, long, make

LEVEL = "model_checking"
ASSUMPTIONS = ["input lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def lengths(cfg, codec, tier):
    """every short length, and around each multiple of the vector loops' block and unroll sizes"""
    short = 100 if tier == "quick" else 1300
    ls = set(range(short + 1))
    if codec != "plain":
        for b in (192, 384, 432, 576, 768, 864, 880):
            for d in (range(-2, 30, 4) if tier == "quick" else range(-6, 60)):
                ls.add(b + d)
        for k in range(101, 1300, 53 if tier == "quick" else 1):
            ls.add(k)
    else:
        for k in range(101, 600, 61 if tier == "quick" else 1):
            ls.add(k)
    # the unrolled loops taken more than once, and lengths that do not fit eight or (bytes per round apart) twelve bits
    ls |= {1750, 1765, 2650, 3516, 7000} if tier == "quick" else {1700 + 13 * i for i in range(80)} | {7000, 13000}
    return sorted(ls)


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            ls = lengths(cfg, c, tier)
            BOUNDS["%s/%s" % (cfg, c)] = "%d lengths up to %d, all byte values" % (len(ls), ls[-1])
            rng.shuffle(ls)
            k = max(1, len(ls) // 40)
            for i in range(k):
                part = ls[i::k]
                out.append(Task(cfg, "many", c, tuple(part), cost=sum(part)))
    return out + longlib.extra("C01", tier, rng, BOUNDS)


def many(prog, codec, ls):
    return core.merge(core.explore(prog, one(prog, codec, n)) for n in ls)


def one(prog, codec, n):
    want_len = (n + 2) // 3 * 4

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)
        s = sym("s", n)
        src = e.buf("src", s)
        out = e.buf("out", want_len + 64)
        want = spec.enc_terms(s)

        def expect(m):
            b = spec.ref_encode(model_bytes(m, s))
            return ["r 0 %d" % len(b), "d " + hexs(b)]
        cx.user["scenario"] = scenario(e, expect)
        _, L = e.oneshot("e", src, 0, n, out, 0, FLAG[codec])
        e.dump(out, 0, want_len)
        cx.prove(tm.eq(cx.P, L, want_len), "%s: output length of %d input bytes" % (codec, n))
        for i, (a, b) in enumerate(zip(cx.bytes_at(out[1].base, want_len), want)):
            cx.prove(tm.eq(8, a, b), "%s: output character %d of %d input bytes" % (codec, i, n))
        return codec
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                yield cfg, script_enc(rng, c, n)
