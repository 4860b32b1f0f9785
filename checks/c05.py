"""C05  Streaming decode: the verdict and the output do not depend on how the input is cut; errors and end are final."""

from engine import core, terms as tm
from . import longlib, spec
from .apilib import *
from .frame import Task
from .longlib import confirm, long, make

ASSUMPTIONS = ["chunk lengths within the stated bound", "chunks after the first are not empty once padding or an error was seen "
               "(an empty chunk there reports 0, which the documentation leaves open)",
               "clang's IR semantics; the intrinsic and inline-assembly models (validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def chunkings(cfg, codec, tier, rng):
    """(chunks, lo, hi): characters in [lo,hi) arbitrary, the others from the alphabet"""
    out = []
    simd = codec != "plain"
    full = tier != "quick"
    K = 44 if simd else 16
    if full:
        K = 110 if simd else 40
    for a in range(1, 5):
        for b in list(range(0, 9)) + list(range(9 + a, K, 5 if not full else 1)):
            for c in ((1, 2) if b < 7 else (1 + (a + b) % 3,)):
                n = a + b + c
                out.append(((a, b, c), 0, n))
    for x in ((1, 1, 1, 1, 1, 1), (1, 1, 1, 1), (2, 2, 2, 2), (3, 3, 3), (0, 2, 0, 1, 1), (1, 0, 1, 0, 3, 1), (4, 4, 1), (5, 1, 1, 1),
              (2, 1, 1, 2), (6, 1, 1), (7, 1, 1), (1, 2, 3, 4)):
        out.append((x, 0, sum(x)))
    big = [(1, 70, 6), (2, 99, 5), (3, 130, 3)] if simd else [(3, 60, 2)]
    if simd:
        big += [(2, 300 + rng.randrange(40), 9), (1, 530 + rng.randrange(70), 7)]
    if full and simd:
        big += [(a, b, 5) for a in (1, 2, 3) for b in range(272, 340)] + [(a, b, 5) for a in (1, 3) for b in range(530, 600, 3)]
    for x in big:
        n = sum(x)
        k = 6 if sum(x) < 200 else 2
        if full:
            k = 12
        for lo in (0, rng.randrange(max(1, n - k)), n - k):
            out.append((x, max(0, lo), lo + k))
    for _ in range(4 if not full else 60):
        x = tuple(rng.randrange(0, 13) for _ in range(rng.randrange(2, 6)))
        out.append((x, 0, sum(x)))
    return out


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            cs = chunkings(cfg, c, tier, rng)
            BOUNDS["%s/%s" % (cfg, c)] = "%d chunkings, up to %d characters in up to %d chunks; arbitrary characters" % (
                len(cs), max(sum(x[0]) for x in cs), max(len(x[0]) for x in cs))
            rng.shuffle(cs)
            k = max(1, len(cs) // 12)
            for i in range(k):
                part = cs[i::k]
                out.append(Task(cfg, "many", c, tuple(part), cost=sum(sum(x[0]) * (x[2] - x[1] + 2) for x in part)))
    return out + longlib.extra("C05", tier, rng, BOUNDS)


def many(prog, codec, ss):
    return core.merge(core.explore(prog, one(prog, codec, *x)) for x in ss)


def one(prog, codec, cs, lo, hi):
    n = sum(cs)
    cap = n // 4 * 3 + 3

    def plan(ref, data):
        """[(start, length, ret, outlen)] of the calls that are made"""
        a = 0
        for c in cs:
            if c == 0 and ref.mode:
                continue
            before = len(ref.out)
            ret = ref.feed(data[a:a + c])
            yield a, c, ret, before, len(ref.out)
            a += c

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)
        s = sym("s", n)
        for x in s[:lo] + s[hi:]:
            cx.assume(spec.is_valid(x))
        src = e.buf("src", s)
        out = e.buf("out", cap + 64)
        st = e.state(fill=[tm.var("st%d" % i, 8) for i in range(STATE)])
        init0 = [tm.var("st%d" % i, 8) for i in range(STATE)]

        def sc(v):
            d = model_bytes(v.model, s)
            ops = ["buf 0 %d e 1 %s" % (n, hexs(d)), "buf 1 %d e 1 " % (cap + 64), "sset 0 " + hexs(model_bytes(v.model, init0)), "dinit 0 %d" % FLAG[codec]]
            ex = []
            r = spec.RefDec(spec.Conc)
            for a, c, ret, b0, b1 in plan(r, list(d)):
                ops.append("sdec 0 0 %d %d 1 %d" % (a, c, b0))
                ex.append("r %d %d" % (ret, b1 - b0))
            ops.append("dump 1 0 %d" % len(r.out))
            ex.append("d " + hexs(r.out))
            return {"cfg": prog.cfg.name, "ops": ops, "expect": ex}
        cx.user["scenario"] = sc
        e.init(st, "d", FLAG[codec])
        ref = spec.RefDec(cx)
        a = 0
        o = 0
        k = 0
        last = 1
        for c in cs:
            if c == 0 and ref.mode:
                continue
            r, L = e.step("d", st, src, a, c, out, o)
            want = ref.feed(s[a:a + c])
            k += 1
            cx.prove(tm.eq(32, r, want), "%s: result of call %d for chunks %r" % (codec, k, cs))
            cx.prove(tm.eq(cx.P, L, len(ref.out) - o), "%s: output length of call %d for chunks %r" % (codec, k, cs))
            a += c
            o = len(ref.out)
            last = want
        for i, (x, y) in enumerate(zip(cx.bytes_at(out[1].base, len(ref.out)), ref.out)):
            cx.prove(tm.eq(8, x, y), "%s: output byte %d for chunks %r" % (codec, i, cs))
        return "%d/%d" % (last, ref.mode)
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            for n in (rng.randrange(0, 60), rng.randrange(60, 200), rng.randrange(300, 1000)):
                yield cfg, script_sdec(rng, c, n)
