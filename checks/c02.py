"""C02  Streaming encode: any way of cutting the input gives the one-shot result."""

from engine import core, terms as tm
from . import longlib, spec
from .apilib import *
from .frame import Task
from .longlib import confirm, long, make

ASSUMPTIONS = ["chunk lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def chunkings(codec, tier, rng):
    out = []
    K = 70 if tier == "quick" else 200
    for a in range(0, 3):
        for b in range(0, K + 1):
            c = (a * 7 + b) % 4 if tier == "quick" else None
            for cc in ([c] if c is not None else range(0, 4)):
                out.append((a, b, cc))
    for x in ((1, 1), (1, 1, 1), (1, 1, 1, 1), (0, 1, 0, 2, 0), (2, 2, 2), (1, 2, 1, 2), (4, 5, 7), (0,), (0, 0), ()):
        out.append(x)
    big = (192, 384, 432, 576, 864)
    for a in (1, 2):
        for b in big:
            for d in ((1, 17) if tier == "quick" else range(-3, 40)):
                out.append((a, b + d, 1 + (b + d) % 3, 20))
    for _ in range(20 if tier == "quick" else 300):
        out.append(tuple(rng.randrange(0, 60) for _ in range(rng.randrange(2, 6))))
    return out


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            cs = chunkings(c, tier, rng)
            BOUNDS["%s/%s" % (cfg, c)] = "%d chunkings, up to %d bytes in up to %d chunks, all byte values" % (
                len(cs), max(map(sum, cs)), max(map(len, cs)))
            rng.shuffle(cs)
            k = max(1, len(cs) // 60)
            for i in range(k):
                part = cs[i::k]
                out.append(Task(cfg, "many", c, tuple(part), cost=sum(map(sum, part))))
    return out + longlib.extra("C02", tier, rng, BOUNDS)


def many(prog, codec, css):
    return core.merge(core.explore(prog, one(prog, codec, cs)) for cs in css)


def one(prog, codec, cs):
    n = sum(cs)

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)
        s = sym("s", n)
        total = (n + 2) // 3 * 4
        src = e.buf("src", s)
        out = e.buf("out", total + 64)
        st = e.state(fill=[tm.var("st%d" % i, 8) for i in range(STATE)])
        want = spec.enc_terms(s)

        def expect(m):
            b = spec.ref_encode(model_bytes(m, s))
            ex = []
            a = 0
            for c in cs:
                ex.append("r 0 %d" % ((a + c) * 8 // 6 - a * 8 // 6))
                a += c
            return ex + ["r 0 %d" % (total - n * 8 // 6), "d " + hexs(b)]

        def sc(v):
            d = scenario(e, expect)(v)
            # a violation found half way still replays the whole history
            d["ops"] = full(model_bytes(v.model, s))
            return d

        def full(data):
            ops = ["buf 0 %d e 1 %s" % (n, hexs(data)), "buf 1 %d e 1 " % (total + 64), "sfill 0 167", "einit 0 %d" % FLAG[codec]]
            a = 0
            for c in cs:
                ops.append("senc 0 0 %d %d 1 %d" % (a, c, a * 8 // 6))
                a += c
            return ops + ["sfin 0 1 %d" % (n * 8 // 6), "dump 1 0 %d" % total]
        cx.user["scenario"] = sc
        e.init(st, "e", FLAG[codec])
        a = 0
        o = 0
        for c in cs:
            _, L = e.step("e", st, src, a, c, out, o)
            a += c
            no = a * 8 // 6
            cx.prove(tm.eq(cx.P, L, no - o), "%s: output length of chunk ending at %d in %r" % (codec, a, cs))
            o = no
        L = e.final(st, out, o)
        cx.prove(tm.eq(cx.P, L, total - o), "%s: output length of final in %r" % (codec, cs))
        for i, (x, y) in enumerate(zip(cx.bytes_at(out[1].base, total), want)):
            cx.prove(tm.eq(8, x, y), "%s: output character %d for chunks %r" % (codec, i, cs))
        return codec
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                yield cfg, script_senc(rng, c, n)
