"""C11  Streams are independent, initialisation forgets the past, calls modify only what they were handed."""

from engine import core, terms as tm
from . import memlib, spec
from .apilib import *
from .c11_ref import expected
from .frame import Task
from .memlib import confirm

ASSUMPTIONS = ["two streams, interleaved call by call", "clang's IR semantics; the intrinsic and inline-assembly models "
               "(validated against the real build on every run)", "z3"]
BOUNDS = {}


def configs(tier):
    return {c: {} for c in ALLCFG}


def state_size(prog):
    for m in prog.modules:
        for n in ("%struct.base64_state", "struct.base64_state"):
            t = m.types.get(n)
            if t is not None and t[0] == "struct":
                return m.size(t)
    return 16


def shapes(codec, tier, rng):
    """((kind, chunks, arbitrary?) of A, same of B, third use)"""
    out = []
    sizes = [0, 1, 2, 3, 5] + ([17, 29, 37] if codec != "plain" else [9, 13])
    if codec in ("avx2", "avx512", "neon64", "neon32"):
        sizes += [50, 70]
    for ka in "ed":
        for kb in "ed":
            for _ in range(5 if tier == "quick" else 40):
                ca = (rng.choice(sizes), rng.choice(sizes[:5]))
                cb = (rng.choice(sizes[:5]), rng.choice(sizes))
                wa = ka == "d" and sum(ca) < 7 and rng.random() < 0.6
                wb = kb == "d" and sum(cb) < 7 and not wa
                out.append((ka, ca, wa, kb, cb, wb, rng.choice("ed"), rng.choice("ed")))
    return out


def tasks(tier, rng):
    out = []
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            ss = shapes(c, tier, rng)
            BOUNDS["%s/%s" % (cfg, c)] = "%d interleavings of two streams of two chunks with one-shot calls in between; state " \
                "objects of the exact size with arbitrary previous content, reused for a further stream" % len(ss)
            k = 3
            for i in range(k):
                out.append(Task(cfg, "many", c, tuple(ss[i::k]), cost=len(ss)))
    return out


def many(prog, codec, ss):
    return core.merge(core.explore(prog, one(prog, codec, *x)) for x in ss)


TEXT = b"aGVsbG8gd29ybGQh"


def one(prog, codec, ka, ca, wa, kb, cb, wb, kone, kc):
    F = FLAG[codec]
    size = state_size(prog)

    def h(cx):
        e = Env(cx, prog.cfg.name, align=1)

        def data(name, n, kind, wild):
            s = sym(name, n)
            if kind == "d" and not wild:
                for x in s:
                    cx.assume(spec.is_valid(x))
            return s

        class Stream:
            def __init__(self, name, kind, cs, wild, st=None):
                self.kind = kind
                self.cs = cs
                self.s = data(name, sum(cs), kind, wild)
                self.src = e.buf(name, self.s, const=True)
                self.out = e.buf("out" + name, sum(cs) * (2 if kind == "e" else 1) + 8)
                if st is None:
                    i = e.ns
                    e.ns += 1
                    o = cx.alloc(size, "state" + name, [tm.var("st%s%d" % (name, q), 8) for q in range(size)])
                    o.written = set()
                    e.ops.append(lambda m, i=i, name=name: "sset %d %s" % (
                        i, hexs(model_bytes(m, [tm.var("st%s%d" % (name, q), 8) for q in range(size)]))))
                    st = (i, o)
                self.st = st
                self.ref = spec.RefDec(cx)
                self.at = self.o = 0
                self.name = name
                self.dead = False

            def init(self):
                e.init(self.st, self.kind, F)

            def step(self, k):
                c = self.cs[k]
                if self.kind == "d" and c == 0 and self.ref.mode:
                    return
                r, L = e.step(self.kind, self.st, self.src, self.at, c, self.out, self.o)
                a = self.at
                self.at += c
                if self.kind == "d":
                    want = self.ref.feed(self.s[a:a + c])
                    n = len(self.ref.out) - self.o
                    cx.prove(tm.eq(32, r, want), "stream %s: result of chunk %d" % (self.name, k))
                else:
                    want = 0
                    n = (self.at * 8) // 6 - (a * 8) // 6
                cx.prove(tm.eq(cx.P, L, n), "stream %s: output length of chunk %d" % (self.name, k))
                self.o += n

            def end(self):
                if self.kind == "e":
                    L = e.final(self.st, self.out, self.o)
                    w = spec.enc_terms(self.s)
                    n = len(w) - self.o
                    cx.prove(tm.eq(cx.P, L, n), "stream %s: length of the final part" % self.name)
                else:
                    w = self.ref.out
                for i, (x, y) in enumerate(zip(cx.bytes_at(self.out[1].base, len(w)), w)):
                    cx.prove(tm.eq(8, x, y), "stream %s: output byte %d" % (self.name, i))
                e.dump(self.out, 0, len(w))

        def sc(v):
            ops = e.script(v.model)
            return {"cfg": e.cfg, "ops": ops, "expect": expected(ops)}
        cx.user["scenario"] = sc
        A = Stream("A", ka, ca, wa)
        B = Stream("B", kb, cb, wb)
        A.init()
        B.init()
        A.step(0)
        B.step(0)
        s1 = e.buf("one", list(TEXT), const=True)
        o1 = e.buf("oneout", 32)
        r, L = e.oneshot(kone, s1, 0, len(TEXT), o1, 0, F)
        w = spec.ref_encode(TEXT) if kone == "e" else spec.ref_decode(TEXT)[1]
        cx.prove(tm.eq(cx.P, L, len(w)), "one-shot call between streams: length")
        for i, (x, y) in enumerate(zip(cx.bytes_at(o1[1].base, len(w)), w)):
            cx.prove(tm.eq(8, x, y), "one-shot call between streams: byte %d" % i)
        A.step(1)
        B.step(1)
        A.end()
        # the same state object serves another stream
        C = Stream("C", kc, (2, 3), False, A.st)
        C.init()
        C.step(0)
        B.end()
        C.step(1)
        C.end()
        memlib.prove_clean(cx, "%s: interleaved streams" % codec)
        return "%s%s%s" % (ka, kb, kc)
    return h


def validation(tier, rng):
    for cfg in ALLCFG:
        for c in codecs_of(cfg):
            yield cfg, script_senc(rng, c, rng.randrange(0, 100))
            yield cfg, script_sdec(rng, c, rng.randrange(0, 100))
