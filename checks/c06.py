"""C06  Decoding an encoding gives back the original bytes, whichever codecs did the two halves."""

from engine import core, terms as tm
from . import longlib, spec
from .apilib import *
from .frame import Task
from .longlib import confirm, long, make

ASSUMPTIONS = ["input lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        cs = codecs_of(cfg)
        for a in cs:
            for b in cs:
                if tier == "quick":
                    ls = set(range(0, 34)) | set(rng.randrange(34, 260) for _ in range(6)) | {rng.randrange(400, 900)}
                else:
                    ls = set(range(0, 260)) | set(rng.randrange(260, 1000) for _ in range(40))
                ls = sorted(ls)
                BOUNDS["%s/%s>%s" % (cfg, a, b)] = "%d lengths up to %d bytes, all byte values" % (len(ls), ls[-1])
                out.append(Task(cfg, "many", a, b, tuple(ls), cost=sum(ls)))
    return out + longlib.extra("C06", tier, rng, BOUNDS)


def many(prog, a, b, ls):
    return core.merge(core.explore(prog, one(prog, a, b, n)) for n in ls)


def one(prog, ca, cb, n):
    m = (n + 2) // 3 * 4

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)
        s = sym("s", n)
        src = e.buf("src", s)
        mid = e.buf("mid", m + 64)
        out = e.buf("out", n + 64)

        def sc(v):
            d = model_bytes(v.model, s)
            return {"cfg": prog.cfg.name, "ops": [
                "buf 0 %d e 1 %s" % (n, hexs(d)), "buf 1 %d e 1 " % (m + 64), "buf 2 %d e 1 " % (n + 64),
                "enc 0 0 %d 1 0 %d" % (n, FLAG[ca]), "dec 1 0 %d 2 0 %d" % (m, FLAG[cb]), "dump 2 0 %d" % n],
                "expect": ["r 0 %d" % m, "r 1 %d" % n, "d " + hexs(d)]}
        cx.user["scenario"] = sc
        _, L = e.oneshot("e", src, 0, n, mid, 0, FLAG[ca])
        cx.prove(tm.eq(cx.P, L, m), "%s: encoded length of %d bytes" % (ca, n))
        r, L = e.oneshot("d", mid, 0, m, out, 0, FLAG[cb])
        cx.prove(tm.eq(32, r, 1), "%s rejects what %s made of %d bytes" % (cb, ca, n))
        cx.prove(tm.eq(cx.P, L, n), "%s>%s: decoded length of %d bytes" % (ca, cb, n))
        for i, (x, y) in enumerate(zip(cx.bytes_at(out[1].base, n), s)):
            cx.prove(tm.eq(8, x, y), "%s>%s: byte %d of %d" % (ca, cb, i, n))
        return "%s>%s" % (ca, cb)
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        cs = codecs_of(cfg)
        for c in cs:
            n = rng.randrange(1, 700)
            ops = script_enc(rng, c, n)
            m = (n + 2) // 3 * 4
            yield cfg, ops + ["buf 2 %d e 0 " % (n + 16), "dec 1 0 %d 2 0 %d" % (m, FLAG[rng.choice(cs)]), "dump 2 0 %d" % n]
