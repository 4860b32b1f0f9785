"""C07  Encoding touches only the bytes it was given: reads within the input, writes within the produced output."""

from engine import core, terms as tm
from . import longlib, memlib, spec
from .apilib import *
from .frame import Task
from .longlib import long, make
from .memlib import confirm

ASSUMPTIONS = ["lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def symlen(P, lo, hi, name="n"):
    """a symbolic length in lo..hi"""
    k = (hi - lo).bit_length()
    x = tm.var(name, k)
    return tm.tabulated(P, [min(lo + i, hi) for i in range(1 << k)], x) if k else lo


def ranges(cfg, codec, tier):
    """ranges of the symbolic length: short inputs, and around the block sizes of the unrolled vector loops"""
    if codec == "plain":
        return [(0, 64), (65, 110)] if tier == "quick" else [(a, a + 63) for a in range(0, 640, 64)]
    if tier == "quick":
        return [(0, 63), (64, 110), (384, 400), (430, 445), (860, 880)]
    return [(a, a + 39) for a in range(0, 1400, 40)]


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            rs = ranges(cfg, c, tier)
            BOUNDS["%s/%s" % (cfg, c)] = "every length in %s (symbolic), one-shot and behind 1 or 2 pending bytes; " \
                "buffers of exactly the produced size" % ", ".join("%d..%d" % r for r in rs)
            for lo, hi in rs:
                for a in (-1, 0, 1, 2):
                    if tier == "quick" and (a == 0 or (lo > 200 and a == 2)):
                        continue            # the one-shot call is a streaming call with nothing pending
                    out.append(Task(cfg, "one", c, a, lo, hi, cost=(hi - lo) * hi))
    return out + longlib.extra("C07", tier, rng, BOUNDS)


def one(prog, codec, a, lo, hi):
    """a < 0: one-shot.  Otherwise stream: a bytes, then n bytes, then final; exactly sized buffers everywhere"""
    P = prog.ptrbits

    def div(x, k):
        return tm.udiv(P, x, k)

    def groups(t):          # characters for t bytes when finalised
        return tm.mul(P, div(tm.add(P, t, 2), 3), 4)

    def chars(t):           # characters that are complete after t bytes
        return div(tm.mul(P, t, 8), 6)

    def h(cx):
        cfg = prog.cfg.name
        n = symlen(P, lo, hi)
        first = 0 if a < 0 else a

        def sc(v):
            k = tm.evaluate(n, v.model, {})
            total = first + k
            if a < 0:
                m = (k + 2) // 3 * 4
                ops = ["buf 0 %d e 0 %s" % (k, "5a" * k), "const 0", "buf 1 %d e 0 " % m, "enc 0 0 %d 1 0 %d" % (k, FLAG[codec]),
                       "margin 1"]
            else:
                ops = ["sfill 0 90", "einit 0 %d" % FLAG[codec]]
                d = 0
                for i, m in enumerate((a, k)):
                    ops += ["buf %d %d e 0 %s" % (2 * i, m, "5a" * m), "const %d" % (2 * i),
                            "buf %d %d e 0 " % (2 * i + 1, (d + m) * 8 // 6 - d * 8 // 6),
                            "senc 0 %d 0 %d %d 0" % (2 * i, m, 2 * i + 1), "margin %d" % (2 * i + 1)]
                    d += m
                ops += ["buf 4 %d e 0 " % ((d + 2) // 3 * 4 - d * 8 // 6), "sfin 0 4 0", "margin 4"]
            ops = memlib.both_ends(ops)
            return {"cfg": cfg, "ops": ops, "expect": [("margin 1",) if o.startswith("margin") else None
                                                       for o in ops if o.split()[0] in ("margin", "enc", "senc", "sfin")]}
        cx.user["scenario"] = sc
        W = P // 8

        def area(name, cap, size, const=False):
            o = cx.alloc(cap, name, [tm.var("%s%d" % (name, i), 8) for i in range(cap)])
            o.sym = size
            o.const = const
            return o
        ol = cx.alloc(W, "outlen")
        if a < 0:
            src = area("src", hi, n, True)
            out = area("out", (hi + 2) // 3 * 4, groups(n))
            prog.call(cx, "base64_encode", src.base, n, out.base, ol.base, FLAG[codec])
            memlib.prove_clean(cx, "%s: one-shot encode" % codec)
            cx.prove(tm.eq(P, cx.load(ol.base, W), groups(n)), "%s: reported length is what was written" % codec)
            return "oneshot"
        st = cx.alloc(STATE, "state", 90)
        prog.call(cx, "base64_stream_encode_init", st.base, FLAG[codec])
        o1 = area("out1", a * 8 // 6, a * 8 // 6)
        s1 = area("src1", a, a, True)
        prog.call(cx, "base64_stream_encode", st.base, s1.base, a, o1.base, ol.base)
        t = tm.add(P, n, a)
        src = area("src", hi, n, True)
        size = tm.sub(P, chars(t), a * 8 // 6)
        out = area("out", (a + hi) * 8 // 6 - a * 8 // 6, size)
        prog.call(cx, "base64_stream_encode", st.base, src.base, n, out.base, ol.base)
        cx.prove(tm.eq(P, cx.load(ol.base, W), size), "%s: reported length is what was written" % codec)
        fin = area("fin", 3, tm.sub(P, groups(t), chars(t)))
        prog.call(cx, "base64_stream_encode_final", st.base, fin.base, ol.base)
        memlib.prove_clean(cx, "%s: streaming encode behind %d bytes" % (codec, a))
        return "stream"
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                m = (n + 2) // 3 * 4
                yield cfg, ["buf 0 %d e 0 %s" % (n, hexs(rand_bytes(rng, n))), "const 0", "buf 1 %d e 0 " % m,
                            "enc 0 0 %d 1 0 %d" % (n, FLAG[c]), "dump 1 0 %d" % m, "margin 1"]
