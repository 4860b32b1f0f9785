"""C12  Concurrent first use: every interleaving of two threads' accesses to the library's static data."""

import itertools
import os
import re
import subprocess
from engine import build, core, terms as tm
from . import choice, replay, spec
from .apilib import *
from .frame import Task
from .weave import Weave

ASSUMPTIONS = ["aligned pointer-sized loads and stores are indivisible and sequentially consistent (the race on the codec pointers is "
               "judged by its results, not by the C11 wording)", "cpuid answers are the same on every thread", "clang's IR semantics; z3"]
BOUNDS = {}
KINDS = ("enc", "dec", "se", "sd")


def rec_configs(tier):
    out = []
    for base in ("x64", "i686"):
        for s in (choice.ORDER, ("avx2",), ()) if tier == "quick" else (
                choice.ORDER, ("avx2", "ssse3"), ("avx512",), ("avx2",), ("avx",), ("sse42",), ("sse41",), ("ssse3",), ()):
            out.append(choice.config(base, s))
    out.append(choice.config("aarch64", ("neon64",)))
    out.append(choice.config("armhf", ("neon32",)))
    out.append(choice.config("s390x", ()))
    return out


def real_configs(tier):
    cs = ((), ("avx2",), ("avx512",)) if tier == "quick" else ((),) + tuple((c,) for c in choice.ORDER)
    return [choice.config("x64", s) + "!" for s in cs]


def configs(tier):
    out = {}
    for n in rec_configs(tier):
        out[n] = {}
        BOUNDS[n] = "stand-in kernels, every answer of cpuid/xgetbv, two threads making one or two calls each, every interleaving of " \
            "their accesses to writable static data; then one more call"
    for n in real_configs(tier):
        out[n] = {}
        BOUNDS[n] = "real kernels, arbitrary data (%s), two threads, interleavings with up to %d preemptions" % (
            "up to 36 bytes" if tier == "quick" else "up to 100 bytes", 3 if tier == "quick" else 5)
    return out


def make(name, kw):
    if name.endswith("!"):
        cfg = build.CONFIGS[name[:-1]]
        return build.program(cfg)
    return choice.make(name)


def tasks(tier, rng):
    out = []
    for n in rec_configs(tier):
        for a, b in itertools.combinations_with_replacement(KINDS, 2):
            out.append(Task(n, "rec", (a,), (b,), cost=5))
        two = [(("enc", "dec"), ("sd",)), (("dec", "enc"), ("se",)), (("se",), ("dec", "dec"))]
        for a, b in two if tier == "quick" else itertools.product([("enc", "dec"), ("dec", "enc"), ("se", "dec"), ("sd", "enc")], KINDS):
            out.append(Task(n, "rec", a, (b,) if type(b) is str else b, cost=20))
    for n in real_configs(tier):
        for a, b in itertools.combinations_with_replacement(KINDS, 2):
            out.append(Task(n, "real", (a,), (b,), 3 if tier == "quick" else 5, 36 if tier == "quick" else 100, cost=50))
    return out


def rec(prog, opsa, opsb):
    cfg = prog.cfg
    P = prog.ptrbits

    def h(cx):
        cpu = choice.Cpu(cx, cfg.target)
        W = P // 8
        who = {}
        notes = {0: [], 1: [], 2: []}
        kinds = {0: opsa, 1: opsb, 2: ("enc", "dec")}

        def avail(m, c):
            t = cpu.avail[c]
            return t if type(t) is int else tm.evaluate(t, m, {})

        def sc(v):
            m = v.model
            ok = ["plain"] + [c for c in choice.ORDER if c in cfg.simd and avail(m, c)] + [c for c in choice.ARM if c in cfg.simd]
            exp = {}
            for t, ops in kinds.items():
                e = []
                for o in ops:
                    k = "enc" if o in ("enc", "se") else "dec"
                    e += [tuple("%s %s" % (k, c) for c in ok)] * (2 if o[0] == "s" else 1)
                    e.append("r %d " % {"enc": 0, "se": 0, "dec": 1, "sd": 11}[o])
                exp[t] = e
            lines = cpu.lines(m) + ["t%d %s - -" % (t, o) for t in (0, 1) for o in kinds[t]] + ["m %s - -" % o for o in kinds[2]]
            return {"weave": cfg.name, "rec": 1, "lines": lines, "sched": list(cx.user.get("schedule", [])), "expect": exp,
                    "nocpuid": tm.evaluate(cpu.has, m, {}) == 0}
        cx.user["scenario"] = sc

        def one(t, o):
            mem = cx.alloc(64, "state", 90)
            ol = cx.alloc(W, "outlen")
            src = cx.alloc(1, "src", [0])
            out = cx.alloc(8, "out", 0)
            k = "en" if o in ("enc", "se") else "de"
            if o[0] != "s":
                prog.call(cx, "base64_%scode" % k, src.base, 0, out.base, ol.base, 0)
            else:
                prog.call(cx, "base64_stream_%scode_init" % k, mem.base, 0)
                for _ in range(2):
                    prog.call(cx, "base64_stream_%scode" % k, mem.base, src.base, 0, out.base, ol.base)
                if k == "en":
                    prog.call(cx, "base64_stream_encode_final", mem.base, out.base, ol.base)

        def thread(t):
            def f():
                for o in kinds[t]:
                    cx.user["me"] = t
                    one(t, o)
            return f
        w = Weave(cx, [thread(0), thread(1)])
        real_note = []

        def note(cx2, dec, i):
            notes[w.cur if not all(w.done) else 2].append(("dec" if dec else "enc", choice.NAMES[i]))
        cx.user["note"] = note
        w.run()
        for o in kinds[2]:
            one(2, o)
        for t, ops in kinds.items():
            want = []
            for o in ops:
                want += ["enc" if o in ("enc", "se") else "dec"] * (2 if o[0] == "s" else 1)
            cx.prove(1 if [k for k, c in notes[t]] == want else 0, "thread %d: kernels called %r, expected %r" % (t, notes[t], want))
            for k, c in notes[t]:
                cx.prove(1 if c == "plain" or c in cfg.simd else 0, "thread %d ran %s, which is not compiled in" % (t, c))
                if c not in choice.ARM:
                    cx.prove(cpu.avail[c], "thread %d ran %s, which CPU or OS do not support" % (t, c))
        return "rec%d" % min(w.points, 9)
    return h


def sample(o, t, n):
    """symbolic input of thread t's call and its expected result"""
    if o in ("enc", "se"):
        return sym("e%d_" % t, n // 4 * 3 - 2)
    return sym("d%d_" % t, n)


def real(prog, opsa, opsb, switches, n):
    cfg = prog.cfg
    P = prog.ptrbits
    W = P // 8

    def h(cx):
        cx.hooks["cpuid"] = lambda cx, leaf, sub: (7, 0, 0, 0) if cx.concretize(leaf) == 0 else (0xffffffff,) * 4
        cx.hooks["xgetbv"] = lambda cx, i: 0xff
        cx.hooks["cpuid_supported"] = lambda cx: 1
        kinds = {0: opsa, 1: opsb}
        data = {t: [sample(o, t, n) for o in kinds[t]] for t in kinds}
        for t in kinds:
            for o, d in zip(kinds[t], data[t]):
                if o in ("dec", "sd"):
                    for x in d[:-1]:
                        cx.assume(spec.is_valid(x))

        def sc(v):
            m = v.model
            lines, exp = [], {0: [], 1: [], 2: []}
            for t in kinds:
                for o, d in zip(kinds[t], data[t]):
                    b = model_bytes(m, d)
                    if o == "enc":
                        lines.append("t%d enc %s" % (t, b.hex() or "-"))
                        exp[t].append("r 0 " + spec.ref_encode(b).hex())
                    elif o == "dec":
                        lines.append("t%d dec %s" % (t, b.hex() or "-"))
                        r, x = spec.ref_decode(b)
                        exp[t].append("r %d %s" % (r, bytes(x).hex()))
                    elif o == "se":
                        k = len(b) // 2
                        lines.append("t%d se %s %s" % (t, b[:k].hex() or "-", b[k:].hex() or "-"))
                        exp[t].append("r 0 " + spec.ref_encode(b).hex())
                    else:
                        k = len(b) // 2
                        lines.append("t%d sd %s %s" % (t, b[:k].hex() or "-", b[k:].hex() or "-"))
                        ref = spec.RefDec(spec.Conc)
                        r1 = ref.feed(list(b[:k]))
                        r2 = ref.feed(list(b[k:]))
                        exp[t].append("r %d %s" % (r1 * 10 + r2, bytes(ref.out).hex()))
            return {"weave": cfg.name, "lines": lines, "sched": list(cx.user.get("schedule", [])), "expect": exp}
        cx.user["scenario"] = sc

        def one(t, o, d):
            mem = cx.alloc(64, "state", 90)
            ol = cx.alloc(W, "outlen")
            src = cx.alloc(len(d), "src", list(d))
            out = cx.alloc(2 * n, "out", 0xA5)
            k = "en" if o in ("enc", "se") else "de"
            if o[0] != "s":
                r = prog.call(cx, "base64_%scode" % k, src.base, len(d), out.base, ol.base, 0)
                return out, [cx.concretize(cx.load(ol.base, W))], [r]
            prog.call(cx, "base64_stream_%scode_init" % k, mem.base, 0)
            cut = len(d) // 2
            pos, rs = 0, []
            for a, b in ((0, cut), (cut, len(d))):
                rs.append(prog.call(cx, "base64_stream_%scode" % k, mem.base, src.base + a, b - a, out.base + pos, ol.base))
                pos += cx.concretize(cx.load(ol.base, W))
            if k == "en":
                prog.call(cx, "base64_stream_encode_final", mem.base, out.base + pos, ol.base)
                pos += cx.concretize(cx.load(ol.base, W))
            return out, [pos], rs

        def thread(t):
            return lambda: [one(t, o, d) for o, d in zip(kinds[t], data[t])]
        w = Weave(cx, [thread(0), thread(1)], switches)
        res = w.run()
        for t in kinds:
            for o, d, (out, (ln,), rs) in zip(kinds[t], data[t], res[t]):
                what = "thread %d (%s): " % (t, o)
                if o in ("enc", "se"):
                    want = spec.enc_terms(d)
                else:
                    ref = spec.RefDec(cx)
                    if o == "dec":
                        r = ref.feed(d)
                        rr = [r if ref.whole() else 0]
                    else:
                        rr = [ref.feed(d[:len(d) // 2]), ref.feed(d[len(d) // 2:])]
                    want = ref.out
                    for a, b in zip(rs, rr):
                        cx.prove(tm.eq(32, a, b), what + "result")
                cx.prove(1 if ln == len(want) else 0, what + "length %d, expected %d" % (ln, len(want)))
                for i, (a, b) in enumerate(zip(cx.bytes_at(out.base, ln), want)):
                    cx.prove(tm.eq(8, a, b), what + "output byte %d" % i)
        return "real%d" % min(w.points, 9)
    return h


# ---------------------------------------------------------------- replay under a controlled schedule

_exe = {}


def weaver(name, rec):
    """the real library with clang's thread instrumentation and a scheduling runtime"""
    if (name, rec) in _exe:
        return _exe[name, rec]
    cfg = build.CONFIGS[name]
    if cfg.target not in (None, "i686-linux-gnu"):
        raise replay.NoReplay("schedules are replayed on x86 only")
    d = os.path.join(build.workdir(), "weave-" + "".join(c if c.isalnum() else "_" for c in name) + ("r" if rec else ""))
    build.write_config(cfg, d)
    a = ["clang", "-std=gnu11", "-O1", "-w", "-I", d, "-I", os.path.join(build.REPO, "include"), "-fno-pic"]
    ld = ["gcc", "-static", "-no-pie"]
    if cfg.target:
        a += ["--target=" + cfg.target, "-isystem", cfg.sysinc]
        ld = ["i686-linux-gnu-gcc", "-static", "-no-pie"]
    inst = a + ["-Xclang", "-fsanitize=thread", "-fno-builtin"]
    objs = []

    def obj(src, cmd, extra=(), patch=False):
        o = os.path.join(d, "w%d.o" % len(objs))
        if patch:
            s = o[:-1] + "s"
            replay._cc(cmd + ["-mno-red-zone", "-fno-omit-frame-pointer", "-S", src, "-o", s])
            with open(s) as f:
                t = f.read()
            t = re.sub(r"^(\s*)cpuid\b", r"\1call verif_cpuid", t, flags=re.M)
            t = re.sub(r"^(\s*)xgetbv\b", r"\1call verif_xgetbv", t, flags=re.M)
            with open(s, "w") as f:
                f.write(t)
            src, cmd = s, (["clang"] + (["--target=" + cfg.target] if cfg.target else []))
        replay._cc(cmd + list(extra) + ["-c", src, "-o", o])
        objs.append(o)
    R = build.REPO
    obj(R + "/lib/lib.c", inst)
    obj(R + "/lib/codec_choose.c", inst, patch=bool(rec))
    obj(R + "/lib/tables/tables.c", inst)
    if rec:
        obj(os.path.join(build.SUPPORT, "recorder.c"), a)
        obj(os.path.join(build.SUPPORT, "choose_stub.S"), ["clang"] + (["--target=" + cfg.target] if cfg.target else []))
    else:
        for c in build.CODECS:
            obj("%s/lib/arch/%s/codec.c" % (R, build.DIRS[c]), inst, build.X86FLAGS.get(c, []) if c in cfg.simd else [])
    obj(os.path.join(build.SUPPORT, "weave_main.c"), a)
    exe = os.path.join(d, "weave")
    replay._cc(ld + ["-o", exe] + objs + ["-lpthread"])
    _exe[name, rec] = exe
    return exe


def run(exe, lines, sched):
    r = subprocess.run([exe], input=("\n".join(lines + ["s " + "".join(map(str, sched))]) + "\n").encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    return r.stdout.decode().split("\n")[:-1]


def judge(got, expect):
    """(difference or None, schedule met)"""
    met = [int(x) for x in next((g[4:] for g in got if g.startswith("met ")), "")]
    sig = next((g for g in got if g.startswith("SIGNAL")), None)
    if sig:
        return ("impossible" if sig == "SIGNAL 4" else "the real build dies: " + sig), met
    cur, per = None, {}
    for g in got:
        if re.match(r"T\d$", g):
            cur = per.setdefault(int(g[1]), [])
        elif cur is not None:
            cur.append(g)
    for t, e in expect.items():
        if not e:
            continue
        d = replay.matches(per.get(int(t), []), [tuple(x) if type(x) is list else x for x in e])
        if d:
            return "thread %s, %s" % (t, d), met
    return None, met


def confirm(sc):
    if "weave" not in sc:
        return replay.confirm(sc)
    if sc.get("nocpuid"):
        return "impossible", "no processor without cpuid here"
    try:
        exe = weaver(sc["weave"], sc.get("rec"))
    except (replay.NoReplay, build.BuildError) as e:
        return "impossible", str(e)
    seen = set()
    todo = [list(sc["sched"]), []]
    runs = 0
    # the compiled code may make its accesses in a different number: try the counterexample's schedule first, then its neighbours
    while todo and runs < 3000:
        s = todo.pop(0)
        if tuple(s) in seen:
            continue
        seen.add(tuple(s))
        runs += 1
        d, met = judge(run(exe, sc["lines"], s), sc["expect"])
        if d == "impossible":
            return d, "this CPU cannot execute the codec"
        if d:
            return "confirmed", "schedule %s: %s" % ("".join(map(str, met)), d)
        for i in range(len(s) if runs > 2 else 0, min(len(met), 40)):
            todo.append(met[:i] + [1 - met[i]])
    return "not-confirmed", "no schedule of the real build (of %d tried) shows it" % runs


def validation(tier, rng):
    return ()
