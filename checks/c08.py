"""C08  Decoding touches only the bytes it was given: reads within the input, writes within three quarters of it."""

from engine import core, terms as tm
from . import longlib, memlib, spec
from .apilib import *
from .c07 import symlen
from .frame import Task
from .longlib import long, make
from .memlib import confirm

ASSUMPTIONS = ["lengths within the stated bound", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def ranges(cfg, codec, tier):
    """ranges of the symbolic length"""
    if codec == "plain":
        return [(0, 63)] if tier == "quick" else [(a, a + 63) for a in range(0, 640, 64)]
    if tier == "quick":
        return [(0, 63), (64, 127), (256, 271)] if "avx" in codec else [(0, 63), (64, 80), (136, 150)]
    return [(a, a + 63) for a in range(0, 1400, 64)]


def tasks(tier, rng):
    out = []
    quick = tier == "quick"
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            rs = ranges(cfg, c, tier)
            full = (44 if c == "plain" else 52) if quick else (120 if c == "plain" else 180)
            BOUNDS["%s/%s" % (cfg, c)] = "alphabet text with one window of arbitrary characters: every length in %s (symbolic); " \
                "arbitrary text: every length up to %d; one-shot and behind 1..3 pending characters; buffers of exactly " \
                "3/4 of the input" % (", ".join("%d..%d" % r for r in rs), full)
            for lo, hi in rs:
                for a in (-1, 1, 2, 3):
                    w = rng.randrange(0, hi)
                    if quick and lo and a > 1:
                        continue
                    out.append(Task(cfg, "one", c, a, lo, hi, w, w + 2, cost=(hi - lo) * hi * 2))
            step = 4 if quick else 1
            for n in range(rng.randrange(1, 4), full + 1, step):
                a = rng.choice((-1, -1, 1, 2, 3)) if quick else n % 5 - 1
                out.append(Task(cfg, "one", c, a, n, n, 0, n, cost=n * n))
    return out + longlib.extra("C08", tier, rng, BOUNDS)


def one(prog, codec, a, lo, hi, w0, w1):
    """a <= 0: one-shot.  Otherwise stream: a alphabet characters, then n characters; exactly sized buffers"""
    P = prog.ptrbits

    def bytes_(t):
        return tm.udiv(P, tm.mul(P, t, 6), 8)

    def h(cx):
        cfg = prog.cfg.name
        n = symlen(P, lo, hi)
        s = [tm.var("src%d" % i, 8) for i in range(hi)]
        for i, x in enumerate(s):
            if not w0 <= i < w1:
                cx.assume(spec.is_valid(x))
        one = a <= 0
        d = 0 if one else a

        def sc(v):
            k = n if type(n) is int else tm.evaluate(n, v.model, {})
            text = hexs(model_bytes(v.model, s[:k]))
            if one:
                ops = ["buf 0 %d e 0 %s" % (k, text), "const 0", "buf 1 %d e 0 " % (k * 3 // 4),
                       "dec 0 0 %d 1 0 %d" % (k, FLAG[codec]), "margin 1"]
            else:
                ops = ["sfill 0 90", "dinit 0 %d" % FLAG[codec],
                       "buf 0 %d e 0 %s" % (a, "51" * a), "const 0", "buf 1 %d e 0 " % (a * 6 // 8),
                       "sdec 0 0 0 %d 1 0" % a, "margin 1",
                       "buf 2 %d e 0 %s" % (k, text), "const 2", "buf 3 %d e 0 " % ((a + k) * 6 // 8 - a * 6 // 8),
                       "sdec 0 2 0 %d 3 0" % k, "margin 3"]
            ops = memlib.both_ends(ops)
            return {"cfg": cfg, "ops": ops, "expect": [("margin 1",) if o.startswith("margin") else None
                                                       for o in ops if o.split()[0] in ("margin", "dec", "sdec")]}
        cx.user["scenario"] = sc
        W = P // 8

        def area(name, data, size, const=False):
            o = cx.alloc(len(data), name, data)
            if type(size) is not int:
                o.sym = size
            o.const = const
            return o

        def room(name, cap, size):
            return area(name, [tm.var("%s%d" % (name, i), 8) for i in range(cap)], size)
        ol = cx.alloc(W, "outlen")
        if one:
            src = area("src", s, n, True)
            out = room("out", hi * 6 // 8, bytes_(n))
            prog.call(cx, "base64_decode", src.base, n, out.base, ol.base, FLAG[codec])
            memlib.prove_clean(cx, "%s: one-shot decode" % codec)
            cx.prove(tm.ule(P, cx.load(ol.base, W), bytes_(n)), "%s: reported length is within 3/4 of the input" % codec)
            return "oneshot"
        st = cx.alloc(STATE, "state", 90)
        prog.call(cx, "base64_stream_decode_init", st.base, FLAG[codec])
        s1 = area("src1", [0x51] * a, a, True)
        o1 = room("out1", a * 6 // 8, a * 6 // 8)
        prog.call(cx, "base64_stream_decode", st.base, s1.base, a, o1.base, ol.base)
        src = area("src", s, n, True)
        size = tm.sub(P, bytes_(tm.add(P, n, a)), a * 6 // 8)
        out = room("out", (a + hi) * 6 // 8 - a * 6 // 8, size)
        prog.call(cx, "base64_stream_decode", st.base, src.base, n, out.base, ol.base)
        memlib.prove_clean(cx, "%s: streaming decode behind %d characters" % (codec, a))
        cx.prove(tm.ule(P, cx.load(ol.base, W), size), "%s: reported length is within 3/4 of the input" % codec)
        return "stream"
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                ops = script_dec(rng, c, n)
                yield cfg, ops
