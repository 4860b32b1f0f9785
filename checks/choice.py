"""Shared by the codec-selection checks: builds with stand-in codecs, symbolic CPU answers, replay."""

import os
import subprocess
from engine import build, core, terms as tm
from . import replay

NAMES = ("avx2", "neon32", "neon64", "plain", "ssse3", "sse41", "sse42", "avx", "avx512")
ORDER = ("avx512", "avx2", "avx", "sse42", "sse41", "ssse3")         # fastest first
ARM = ("neon64", "neon32")


def note(cx, dec, i):
    if "note" in cx.user:
        return cx.user["note"](cx, dec, i)
    cx.user.setdefault("notes", []).append(("dec" if dec else "enc", NAMES[i]))


def config(base, simd):
    """configuration `base` with another set of SIMD codecs"""
    b = build.CONFIGS[base]
    name = "%s[%s]" % (base, ",".join(simd))
    if name not in build.CONFIGS:
        build.CONFIGS[name] = build.Config(name, b.target, tuple(simd), b.cflags, (), b.sysinc, b.defs)
    return name


def make(name, kw=None):
    """program with lib.c, codec_choose.c, and stand-in codecs"""
    cfg = build.CONFIGS[name]
    return build.program(cfg, builtins={"verif_note": note}, codecs=(), extra=[
        ("recorder", os.path.join(build.SUPPORT, "recorder.c"), [])])


class Cpu:
    """answers of the feature-detection instructions: symbolic, architecturally consistent"""

    def __init__(self, cx, target):
        self.cx = cx
        v = lambda n: tm.var(n, 32)
        self.max = v("cpuid.max")
        self.leaf = {}
        self.r1 = [v("cpuid1." + r) for r in "abcd"]
        self.r7 = [v("cpuid7." + r) for r in "abcd"]
        self.xcr0 = tm.var("xcr0", 64)
        self.has = tm.var("has_cpuid", 1) if target and "64" not in target else 1
        b = lambda r, i: tm.ext(r, i, i)
        c1, b7, c7 = self.r1[2], self.r7[1], self.r7[2]
        v1 = tm.band(1, self.has, tm.ule(32, 1, self.max))
        v7 = tm.band(1, self.has, tm.ule(32, 7, self.max))
        self.osx = tm.band(1, v1, b(c1, 27))
        ymm = tm.band(1, self.osx, tm.eq(64, tm.band(64, self.xcr0, 6), 6))
        zmm = tm.band(1, self.osx, tm.eq(64, tm.band(64, self.xcr0, 0xe6), 0xe6))
        A = lambda *x: x[0] if len(x) == 1 else tm.band(1, x[0], A(*x[1:]))
        self.avail = {
            "ssse3": A(v1, b(c1, 9)), "sse41": A(v1, b(c1, 19)), "sse42": A(v1, b(c1, 20)), "avx": A(ymm, b(c1, 28)),
            "avx2": A(ymm, v7, b(b7, 5), b(c1, 28)),
            "avx512": A(zmm, v7, b(b7, 31), b(c7, 1), b(b7, 16), b(b7, 5), b(c1, 28)), "plain": 1}
        # what every real processor guarantees: each extension implies the ones it builds on
        imp = lambda p, q: cx.assume(tm.bor(1, tm.bnot1(p), q))
        imp(b(c1, 28), b(c1, 20))
        imp(b(c1, 20), b(c1, 19))
        imp(b(c1, 19), b(c1, 9))
        imp(A(v7, b(b7, 5)), b(c1, 28))
        imp(A(v7, b(b7, 16)), b(b7, 5))
        imp(A(v7, b(b7, 31)), b(b7, 16))
        imp(A(v7, b(c7, 1)), b(b7, 16))
        cx.hooks["cpuid"] = self.cpuid
        cx.hooks["xgetbv"] = self.xgetbv
        cx.hooks["cpuid_supported"] = lambda cx: self.has
        cx.user["cpu"] = self

    def cpuid(self, cx, leaf, sub):
        cx.prove(self.has, "cpuid is executed only where it exists")
        leaf = cx.concretize(leaf)
        if leaf == 0:
            return (self.max, tm.var("vendor.b", 32), tm.var("vendor.c", 32), tm.var("vendor.d", 32))
        if leaf == 1:
            # beyond the largest leaf: whatever the largest one holds, i.e. anything
            return self.r1
        if leaf == 7:
            if cx.branch(tm.eq(32, sub, 0)):
                return self.r7
        return [tm.var("cpuid%x.%d.%s" % (leaf, len(self.leaf), r), 32) for r in "abcd"]

    def xgetbv(self, cx, idx):
        cx.prove(self.osx, "xgetbv is executed only where the OS enabled it")
        cx.prove(tm.eq(32, idx, 0), "xgetbv reads XCR0")
        return self.xcr0

    def lines(self, m):
        e = lambda t: t if type(t) is int else tm.evaluate(t, m, {})
        x = e(self.xcr0)
        return ["max %d" % e(self.max)] + ["l %d %s" % (k, " ".join(str(e(t)) for t in r))
                                           for k, r in ((1, self.r1), (7, self.r7))] + ["x %d %d" % (x & 0xffffffff, x >> 32)]


_exe = {}


def driver(name):
    """the real lib.c and codec_choose.c with stand-in codecs, cpuid and xgetbv"""
    if name in _exe:
        return _exe[name]
    cfg = build.CONFIGS[name]
    cc, run = replay.runner(cfg)
    d = os.path.join(build.workdir(), "choose-" + "".join(c if c.isalnum() else "_" for c in name))
    build.write_config(cfg, d)
    x86 = cfg.target is None or cfg.target.startswith("i686")
    base = [cc, "-std=gnu99", "-O1", "-w", "-I", d, "-I", os.path.join(build.REPO, "include")] + list(cfg.cflags)
    if x86:
        base += ["-mno-red-zone"] if cfg.target is None else ["-fno-pic", "-mno-sse"]
    if x86:
        s = os.path.join(d, "choose.s")
        replay._cc(base + ["-S", os.path.join(build.REPO, "lib/codec_choose.c"), "-o", s])
        with open(s) as f:
            t = f.read()
        import re
        t = re.sub(r"^(\s*)cpuid\b", r"\1call verif_cpuid", t, flags=re.M)
        t = re.sub(r"^(\s*)xgetbv\b", r"\1call verif_xgetbv", t, flags=re.M)
        with open(s, "w") as f:
            f.write(t)
        srcs = [s, os.path.join(build.SUPPORT, "choose_stub.S")]
    else:
        srcs = [os.path.join(build.REPO, "lib/codec_choose.c")]
    exe = os.path.join(d, "choose")
    replay._cc(base + ["-static", "-no-pie", "-o", exe] + srcs + [os.path.join(build.REPO, "lib/lib.c"),
               os.path.join(build.REPO, "lib/tables/tables.c"), os.path.join(build.SUPPORT, "recorder.c"),
               os.path.join(build.SUPPORT, "choosemain.c")])
    _exe[name] = run + [exe]
    return _exe[name]


def run(name, lines):
    r = subprocess.run(driver(name), input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=60)
    return r.stdout.decode().split("\n")[:-1] + ([] if r.returncode == 0 else ["EXIT %d" % r.returncode])


def confirm(sc):
    if "choose" not in sc:
        return replay.confirm(sc)
    if sc.get("nocpuid"):
        return "impossible", "no processor without cpuid here"
    try:
        got = run(sc["choose"], sc["ops"])
    except replay.NoReplay as e:
        return "impossible", str(e)
    d = replay.matches(got, [tuple(x) if type(x) is list else x for x in sc["expect"]])
    if d is None:
        return "not-confirmed", "real build prints what was expected"
    return "confirmed", d
