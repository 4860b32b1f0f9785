"""C13  The OpenMP build gives the serial results, for every team size, and its threads do not race."""

import os
import subprocess
from engine import build, core, terms as tm
from . import omp, replay, spec
from .apilib import *
from .frame import Task

ASSUMPTIONS = ["teams of 1 to 4 threads; the parallel path is entered at every length (its threshold is set to 1)",
               "OpenMP runtime entry points behave as the OpenMP specification says", "clang's IR semantics; z3"]
BOUNDS = {}
CF = ("x64-omp", "i686-omp")


def configs(tier):
    return {c: {} for c in CF}


def make(name, kw):
    return build.program(name, builtins=omp.BUILTINS)


def tasks(tier, rng):
    out = []
    quick = tier == "quick"
    for cfg in CF:
        cod = ("plain", "ssse3", "avx2") if cfg == "x64-omp" else ("plain", "avx")
        if not quick:
            cod = build.CONFIGS[cfg].codecs()
        for c in cod:
            simd = c != "plain"
            E = 60 if quick else 220
            D = 56 if quick else 200
            BOUNDS["%s/%s" % (cfg, c)] = "teams of 1..4; encode: every input of 1..%d bytes (larger ones sampled up to %d); decode: arbitrary " \
                "characters in every window of 6 around chunk boundaries, all characters up to 14; up to %d characters" % (
                    E // 2, E * 3, D * 3)
            for T in (1, 2, 3, 4):
                ns = list(range(1, E // 2)) + [rng.randrange(E // 2, E * 3) for _ in range(6)]
                out.append(Task(cfg, "encs", c, T, tuple(ns), cost=200))
                ws = []
                for n in (list(range(1, 15 if quick else 17))):
                    if T <= 2 or n < 9 or n > 12:
                        ws.append((n, ((0, n),)))
                for n in sorted(set(list(range(4 * T, D, 3)) + [T * 16, T * 8, T * 12, T * 16 + 4, T * 64 if simd else T * 20])):
                    L = n // (4 * T) * 4
                    cuts = [L * k for k in range(1, T + 1)] + [n]
                    a = rng.choice(cuts)
                    b = n
                    w = [(max(0, a - 3), min(n, a + 3))]
                    if b - 2 >= w[0][1]:
                        w.append((b - 2, b))
                    ws.append((n, tuple(w)))
                for q in range(4):
                    out.append(Task(cfg, "decs", c, T, tuple(ws[q::4]), cost=300))
    return out


def encs(prog, codec, T, ns):
    return core.merge(core.explore(prog, enc1(prog, codec, T, n)) for n in ns)


def decs(prog, codec, T, ws):
    return core.merge(core.explore(prog, dec1(prog, codec, T, n, w)) for n, w in ws)


def common(cx, prog, e, T, race=True):
    cx.user["team"] = T
    cx.user["forward"] = cx.choose(2) == 0

    def sc(v):
        ops = e.script(v.model)
        from .c11_ref import expected
        d = {"cfg": prog.cfg.name, "ops": ops, "expect": expected(ops), "defs": ["-DBASE64_VERIF_OMP_THRESHOLD=1"],
             "env": {"OMP_NUM_THREADS": str(T), "OMP_DYNAMIC": "false", "OMP_THREAD_LIMIT": "64"}}
        if cx.user.get("race"):
            d["race"] = T
        return d
    cx.user["scenario"] = sc


def enc1(prog, codec, T, n):
    m = (n + 2) // 3 * 4

    def h(cx):
        e = Env(cx, prog.cfg.name)
        s = sym("s", n)
        src = e.buf("src", s, const=True)
        out = e.buf("out", m)
        common(cx, prog, e, T)
        _, L = e.oneshot("e", src, 0, n, out, 0, FLAG[codec])
        e.dump(out, 0, m)
        cx.prove(tm.eq(cx.P, L, m), "%s, %d threads: length of the encoding of %d bytes" % (codec, T, n))
        for i, (a, b) in enumerate(zip(cx.bytes_at(out[1].base, m), spec.enc_terms(s))):
            cx.prove(tm.eq(8, a, b), "%s, %d threads: character %d of the encoding of %d bytes" % (codec, T, i, n))
        from .memlib import prove_clean
        prove_clean(cx, "%s, %d threads, encoding %d bytes" % (codec, T, n))
        return "enc"
    return h


def dec1(prog, codec, T, n, windows):
    def h(cx):
        e = Env(cx, prog.cfg.name)
        s = sym("s", n)
        wild = set(i for lo, hi in windows for i in range(lo, hi))
        for i, x in enumerate(s):
            if i not in wild:
                cx.assume(spec.is_valid(x))
        src = e.buf("src", s, const=True)
        out = e.buf("out", n * 3 // 4)
        common(cx, prog, e, T)
        r, L = e.oneshot("d", src, 0, n, out, 0, FLAG[codec])
        ref = spec.RefDec(cx)
        want = ref.feed(s)
        if not ref.whole():
            want = 0
        k = len(ref.out)
        e.dump(out, 0, k)
        what = "%s, %d threads, %d characters: " % (codec, T, n)
        cx.prove(tm.eq(32, r, want), what + "result")
        cx.prove(tm.eq(cx.P, L, k), what + "output length")
        for i, (a, b) in enumerate(zip(cx.bytes_at(out[1].base, k), ref.out)):
            cx.prove(tm.eq(8, a, b), what + "output byte %d" % i)
        from .memlib import prove_clean
        prove_clean(cx, what + "memory")
        return "dec%d" % want
    return h


_tsan = []


def tsan_driver(cfgname):
    """the driver with ThreadSanitizer and a pthread-based OpenMP runtime"""
    if not _tsan:
        cfg = build.CONFIGS[cfgname]
        d = os.path.join(build.workdir(), "tsan")
        build.write_config(cfg, d)
        objs = []
        base = ["clang", "-std=gnu11", "-O1", "-g", "-w", "-fsanitize=thread", "-I", d, "-I", build.SUPPORT, "-I",
                os.path.join(build.REPO, "include"), "-DBASE64_VERIF_OMP_THRESHOLD=1"]
        jobs = [("lib/lib.c", ["-fopenmp"]), ("lib/codec_choose.c", []), ("lib/tables/tables.c", [])]
        jobs += [("lib/arch/%s/codec.c" % build.DIRS[c], build.X86FLAGS.get(c, []) if c in cfg.simd else []) for c in build.CODECS]
        for k, (src, extra) in enumerate(jobs):
            o = os.path.join(d, "t%d.o" % k)
            replay._cc(base + extra + ["-c", os.path.join(build.REPO, src), "-o", o])
            objs.append(o)
        exe = os.path.join(d, "driver")
        replay._cc(base + ["-o", exe, os.path.join(build.SUPPORT, "driver.c"), os.path.join(build.SUPPORT, "kmp_rt.c")] + objs + ["-lpthread"])
        _tsan.append(exe)
    return _tsan[0]


def confirm(sc):
    if sc.get("race") and sc["cfg"] == "x64-omp":
        try:
            exe = tsan_driver(sc["cfg"])
            e = dict(os.environ, TEAM=str(sc["race"]), TSAN_OPTIONS="exitcode=66 halt_on_error=0")
            r = subprocess.run(["setarch", "-R", exe], input=("\n".join(sc["ops"]) + "\n").encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, timeout=120)
            if b"data race" in r.stderr:
                return "confirmed", "ThreadSanitizer reports a data race"
        except (build.BuildError, OSError) as x:
            pass
    if sc.get("race"):
        # the encoding itself shows two unordered accesses; a real run may still print the right bytes
        st, text = replay.confirm(sc)
        return ("confirmed", text) if st == "confirmed" else ("not-confirmed", text)
    from . import memlib
    return memlib.confirm(sc)


def validation(tier, rng):
    return ()
