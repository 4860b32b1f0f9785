"""C09  Automatic codec choice: only what CPU and OS support, and the best of that."""

import itertools
from engine import build, core, terms as tm
from . import choice
from .choice import confirm, make
from .frame import Task

ASSUMPTIONS = ["processors implement every extension an advertised one builds on (AVX-512VL: AVX-512F: AVX2: AVX: SSE4.2: SSE4.1: "
               "SSSE3); everything else the feature instructions return is arbitrary", "clang's IR semantics", "z3"]
BOUNDS = {}


def sets(tier):
    o = choice.ORDER
    if tier != "quick":
        return [tuple(c for k, c in enumerate(o) if m >> k & 1) for m in range(64)]
    out = [o, ()] + [(c,) for c in o] + [tuple(x for x in o if x != c) for c in o]
    return out


def configs(tier):
    out = {}
    for base in ("x64", "i686"):
        for s in sets(tier) if base == "x64" or tier != "quick" else [choice.ORDER, ("avx2",), ("ssse3",), ()]:
            out[choice.config(base, s)] = {}
    for base, c in (("aarch64", "neon64"), ("armhf", "neon32"), ("s390x", None)):
        for s in ((), (c,)) if c else ((),):
            out[choice.config(base, s)] = {}
    for n in out:
        BOUNDS[n] = "every answer of cpuid (leaves 0, 1, 7 and beyond the maximum) and xgetbv; first use by any call"
    return out


def tasks(tier, rng):
    return [Task(n, "auto", k) for n in configs(tier) for k in range(4)]


def auto(prog, first):
    """first: which call is the process's first"""
    cfg = prog.cfg
    P = prog.ptrbits

    def h(cx):
        cpu = choice.Cpu(cx, cfg.target)

        def want(m):
            t = lambda c: cpu.avail[c] if type(cpu.avail[c]) is int else tm.evaluate(cpu.avail[c], m, {})
            for c in choice.ORDER:
                if c in cfg.simd and t(c):
                    return c
            for c in choice.ARM:
                if c in cfg.simd:
                    return c
            return "plain"
        OPS = (["enc 0", "dec 0", "enc 0"], ["dec 0", "enc 0", "dec 0"], ["einit 0", "senc", "dinit 0", "sdec"],
               ["dinit 0", "sdec", "einit 0", "senc"])[first]

        def sc(v):
            w = want(v.model)
            return {"choose": cfg.name, "cfg": cfg.name, "nocpuid": tm.evaluate(cpu.has, v.model, {}) == 0,
                    "ops": cpu.lines(v.model) + OPS,
                    "expect": ["%s %s" % ("enc" if "enc" in o else "dec", w) for o in OPS if "init" not in o]}
        cx.user["scenario"] = sc
        W = P // 8
        ol = cx.alloc(W, "outlen")
        src = cx.alloc(1, "src", [0])
        out = cx.alloc(8, "out", 0)
        st = cx.alloc(64, "state", 90)
        for o in OPS:
            n0 = len(cx.user.get("notes", ()))
            if o == "enc 0" or o == "dec 0":
                prog.call(cx, "base64_encode" if o[0] == "e" else "base64_decode", src.base, 0, out.base, ol.base, 0)
            elif "init" in o:
                prog.call(cx, "base64_stream_%scode_init" % ("en" if o[0] == "e" else "de"), st.base, 0)
                continue
            else:
                prog.call(cx, "base64_stream_%scode" % ("en" if o[1] == "e" else "de"), st.base, src.base, 0, out.base, ol.base)
            got = cx.user.get("notes", [])[n0:]
            kind = "enc" if "enc" in o else "dec"
            cx.prove(1 if len(got) == 1 and got[0][0] == kind else 0, "%s runs one %s kernel (%r)" % (o, kind, got))
            c = got[0][1]
            cx.prove(1 if c == "plain" or c in cfg.simd else 0, "%s: chosen codec %s is compiled in" % (o, c))
            if c in choice.ARM:
                continue
            cx.prove(cpu.avail[c], "%s: chosen codec %s is supported by CPU and OS" % (o, c))
            for b in choice.ORDER:
                if b == c:
                    break
                if b in cfg.simd:
                    cx.prove(tm.bnot1(cpu.avail[b]), "%s: %s chosen although %s is available" % (o, c, b))
            if c == "plain":
                cx.prove(0 if any(a in cfg.simd for a in choice.ARM) else 1, "%s: plain chosen although NEON is compiled in" % o)
        return c
    return h


def validation(tier, rng):
    return ()
