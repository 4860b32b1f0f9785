"""C10  A forced codec is honoured whatever was called before; a missing one is reported and produces nothing."""

from engine import build, core, terms as tm
from . import choice, spec
from .apilib import *
from .c07 import symlen
from .choice import NAMES, confirm
from .frame import Task

ASSUMPTIONS = ["histories of at most three calls", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}
HIST = {"x64": ((), ("avx512", "avx2", "avx", "sse42", "sse41", "ssse3"), ("avx2",), ("ssse3", "avx512")),
        "i686": (("ssse3", "avx"),), "aarch64": ((), ("neon64",)), "armhf": (("neon32",),), "s390x": ((),)}
KINDS = ("enc", "dec", "senc", "sdec")


def configs(tier):
    out = {choice.config(b, s): {} for b in HIST for s in HIST[b]}
    for c in ALLCFG:
        out[c] = {}
    return out


def make(name, kw):
    if "[" in name:
        return choice.make(name)
    p = build.program(name)
    orig = p.getf

    def getf(key):
        f = p.funcs.get(key)
        known = key in p.code
        c = orig(key)
        if not known and f is not None and f.mod.name in NAMES:
            who = f.mod.name
            inner = c

            def c(cx, *a):
                cx.user.setdefault("ran", set()).add(who)
                return inner(cx, *a)
            p.code[key] = c
        return c
    p.getf = getf
    return p


def tasks(tier, rng):
    out = []
    for b in HIST:
        for s in HIST[b]:
            n = choice.config(b, s)
            BOUNDS[n] = "all histories of %d calls (one-shot or streaming, encode or decode) with any flag word" % (
                2 if tier == "quick" and b != "x64" else 3)
            for k in range(4):
                for j in range(4):
                    out.append(Task(n, "history", k, j, 2 if tier == "quick" and b != "x64" else 3, cost=50))
    for c in ALLCFG:
        BOUNDS[c] = "every forced codec, compiled in or not; inputs of 0..48 arbitrary bytes"
        for f in NAMES:
            out.append(Task(c, "forced", f, cost=20))
    return out


def history(prog, k0, k1, ncalls):
    cfg = prog.cfg

    def h(cx):
        cx.hooks["cpuid"] = lambda cx, a, b: (7, 0xffffffff, 0xffffffff, 0xffffffff)
        cx.hooks["xgetbv"] = lambda cx, i: 0xff
        cx.hooks["cpuid_supported"] = lambda cx: 1
        kinds = [KINDS[k0], KINDS[k1]]
        if ncalls > 2:
            kinds.append(KINDS[cx.choose(4)])
        flags = [tm.zext(tm.var("flags%d" % i, 9), 9, 32) for i in range(len(kinds))]
        pres = ["max 7", "l 1 7 4294967295 4294967295 4294967295", "l 7 7 4294967295 4294967295 4294967295", "x 255 0"]
        auto = next((c for c in choice.ORDER + choice.ARM if c in cfg.simd), "plain")

        def allowed(i, fs):
            if fs[i]:
                return [c for q, c in enumerate(NAMES) if fs[i] >> q & 1]
            last = next((f for f in reversed(fs[:i]) if f), 0)
            return [auto] + [c for q, c in enumerate(NAMES) if last >> q & 1]

        def sc(v):
            fs = [tm.evaluate(f, v.model, {}) for f in flags]
            ops = list(pres)
            exp = []
            for i, (k, f) in enumerate(zip(kinds, fs)):
                if k[0] == "s":
                    ops += ["%sinit %d" % (k[1], f), k]
                else:
                    ops.append("%s %d" % (k, f))
                exp.append(tuple("%s %s" % (k[-3:], c) for c in allowed(i, fs)))
            return {"choose": cfg.name, "cfg": cfg.name, "ops": ops, "expect": exp}
        cx.user["scenario"] = sc
        ol = cx.alloc(cx.P // 8, "outlen")
        src = cx.alloc(1, "src", [0])
        out = cx.alloc(8, "out", 0)
        st = cx.alloc(64, "state", 90)
        last = 0
        for i, (k, f) in enumerate(zip(kinds, flags)):
            n0 = len(cx.user.get("notes", ()))
            if k[0] == "s":
                w = "en" if k == "senc" else "de"
                prog.call(cx, "base64_stream_%scode_init" % w, st.base, f)
                prog.call(cx, "base64_stream_%scode" % w, st.base, src.base, 0, out.base, ol.base)
            else:
                prog.call(cx, "base64_encode" if k == "enc" else "base64_decode", src.base, 0, out.base, ol.base, f)
            got = cx.user.get("notes", [])[n0:]
            cx.prove(1 if len(got) == 1 and got[0][0] == k[-3:] else 0, "call %d (%s) runs exactly one kernel" % (i, k))
            b = NAMES.index(got[0][1])
            bit = tm.ext(f, b, b)
            zero = tm.eq(32, f, 0)
            free = 1 if got[0][1] == auto else tm.ext(last, b, b)
            cx.prove(tm.ite(1, zero, free, bit), "call %d (%s) ran %s, which its flags do not ask for" % (i, k, got[0][1]))
            last = tm.ite(32, zero, last, f)
        return " ".join(n[1] for n in cx.user["notes"][:1])
    return h


def forced(prog, f):
    """codec f forced on the real library: only its code runs; if it is missing nothing is produced"""
    cfg = prog.cfg
    have = f in cfg.codecs()
    F = FLAG[f]
    P = prog.ptrbits

    def h(cx):
        cap = 48
        n = symlen(P, 0, 47) if not have else cx.choose(5) * 7
        e = Env(cx, cfg.name)
        bytes_ = sym("s", cap)
        src = e.buf("src", bytes_)
        out = e.buf("out", cap * 2)
        before = list(cx.bytes_at(out[1].base, cap * 2))
        kind = ("e", "d", "se", "sd")[cx.choose(4)]
        st = e.state(90)
        ol = e.outlen()

        def sc(v):
            k = n if type(n) is int else tm.evaluate(n, v.model, {})
            if have:
                return {"choose": cfg.name, "cfg": cfg.name, "ops": ["%s %d" % ("enc" if "e" in kind else "dec", F)],
                        "expect": ["%s %s" % ("enc" if "e" in kind else "dec", f)], "interp": True}
            ops = list(x if type(x) is str else x(v.model) for x in e.ops[:2]) + ["sfill 0 90"]
            r = -1 if "d" in kind else 0
            if kind == "e":
                ops.append("enc 0 0 %d 1 0 %d" % (k, F))
                exp = ["r 0 0"]
            elif kind == "d":
                ops.append("dec 0 0 %d 1 0 %d" % (k, F))
                exp = [("r -1 0",)]
            elif kind == "se":
                ops += ["einit 0 %d" % F, "senc 0 0 0 %d 1 0" % k, "sfin 0 1 0"]
                exp = ["r 0 0", "r 0 0"]
            else:
                ops += ["dinit 0 %d" % F, "sdec 0 0 0 %d 1 0" % k]
                exp = [("r -1 0",)]
            ops.append("dump 1 0 %d" % (cap * 2))
            exp.append("d " + "a5" * (cap * 2))
            return {"cfg": cfg.name, "ops": ops, "expect": exp}
        cx.user["scenario"] = sc
        r = None
        total = []
        if kind == "e":
            prog.call(cx, "base64_encode", src[1].base, n, out[1].base, ol.base, F)
            total.append(cx.load(ol.base, P // 8))
        elif kind == "d":
            r = prog.call(cx, "base64_decode", src[1].base, n, out[1].base, ol.base, F)
            total.append(cx.load(ol.base, P // 8))
        elif kind == "se":
            prog.call(cx, "base64_stream_encode_init", st[1].base, F)
            prog.call(cx, "base64_stream_encode", st[1].base, src[1].base, n, out[1].base, ol.base)
            total.append(cx.load(ol.base, P // 8))
            prog.call(cx, "base64_stream_encode_final", st[1].base, out[1].base, ol.base)
            total.append(cx.load(ol.base, P // 8))
        else:
            prog.call(cx, "base64_stream_decode_init", st[1].base, F)
            r = prog.call(cx, "base64_stream_decode", st[1].base, src[1].base, n, out[1].base, ol.base)
            total.append(cx.load(ol.base, P // 8))
        ran = cx.user.get("ran", set())
        if have:
            cx.prove(1 if ran == {f} else 0, "%s forced, code of %s ran" % (f, ", ".join(sorted(ran)) or "no codec"))
            return "ran " + f
        for t in total:
            cx.prove(tm.eq(P, t, 0), "missing codec %s: reported output length is 0" % f)
        if r is not None:
            cx.prove(tm.eq(32, r, 0xffffffff), "missing codec %s: decode returns -1" % f)
        for i, (a, b) in enumerate(zip(before, cx.bytes_at(out[1].base, cap * 2))):
            cx.prove(tm.eq(8, a, b), "missing codec %s: output byte %d untouched" % (f, i))
        return "missing"
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in NAMES:
            yield cfg, ["buf 0 16 e 0 " + hexs(rand_bytes(rng, 16)), "buf 1 64 e 0 ", "enc 0 0 16 1 0 %d" % FLAG[c],
                        "dec 0 0 16 1 0 %d" % FLAG[c]]
