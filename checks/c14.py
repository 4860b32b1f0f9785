"""C14  OpenMP partition arithmetic: every length a platform can address, every team size; decided over the integers."""

import os
import subprocess
from engine import build, core, ints, terms as tm
from . import omp, replay
from .frame import Task

ASSUMPTIONS = ["codecs consume and produce what C01..C08 establish (they are replaced by that contract here)",
               "input and output are objects of at most half the address space, and both fit in it together",
               "OpenMP runtime entry points behave as the OpenMP specification says", "clang's IR semantics; z3 over the integers"]
BOUNDS = {}
CF = ("x64-omp", "i686-omp")


def teams(tier):
    return (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 64) if tier == "quick" else tuple(range(1, 65)) + (96, 100, 127, 128, 192, 255, 256)


def configs(tier):
    for c in CF:
        BOUNDS[c] = "every input length with input and output addressable (%d-bit), teams of %s threads; every chunk valid, or any " \
            "one chunk failing or ending early" % (64 if c == "x64-omp" else 32, ", ".join(map(str, teams(tier))))
    return {c: {} for c in CF}


def make(name, kw):
    b = dict(omp.BUILTINS)
    b["verif_enc"] = v_enc
    b["verif_dec"] = v_dec
    return build.program(name, builtins=b, codecs=(), extra=[("hook", os.path.join(build.SUPPORT, "hookcodec.c"), [])])


def tasks(tier, rng):
    out = []
    for c in CF:
        for T in teams(tier):
            out.append(Task(c, "enc", T, cost=T))
            out.append(Task(c, "dec", T, -1, cost=T))
            for bad in sorted(set([0, T - 1, T // 2])):
                out.append(Task(c, "dec", T, bad, cost=T))
    return out


def wide(cx, x):
    return tm.zext(x, cx.P, cx.P + 8)


def wmul(cx, x, k):
    return tm.mul(cx.P + 8, wide(cx, x), k)


class Buf:
    """symbolic input and output regions"""

    def __init__(self, cx, enc, T):
        P = cx.P
        cx.check = ints.check
        self.cx = cx
        self.enc = enc
        self.T = T
        self.src, self.out, self.n = tm.var("src", P), tm.var("out", P), tm.var("srclen", P)
        n = self.n
        if enc:
            m = tm.mul(P, tm.udiv(P, tm.add(P, n, 2), 3), 4)
        else:
            m = tm.add(P, tm.mul(P, tm.lshr(P, n, 2), 3), tm.lshr(P, tm.mul(P, tm.band(P, n, 3), 3), 2))
        self.m = m
        half = (1 << (P - 1)) - 1
        top = (1 << P) - 1
        cx.assume(tm.ule(P, 1, n))
        # mathematical size of the output, then both regions inside the address space and apart from each other
        if enc:
            cx.assume(tm.ule(P, n, half // 4 * 3))
        else:
            cx.assume(tm.ule(P, n, half))
        cx.assume(tm.ule(P, m, half))
        cx.assume(tm.ule(P, n, tm.sub(P, top, m)))
        cx.assume(tm.ule(P, 65536, self.src))
        cx.assume(tm.ule(P, 65536, self.out))
        cx.assume(tm.ule(P, self.src, tm.sub(P, top, n)))
        cx.assume(tm.ule(P, self.out, tm.sub(P, top, m)))
        self.calls = []
        cx.user["buf"] = self
        cx.hooks["symstore"] = self.store
        self.writes = []

        def sc(v):
            m = self.small(v)
            ev = lambda t: t if type(t) is int else tm.evaluate(t, m, {})
            return {"cfg": cx.prog.cfg.name, "big": "enc" if enc else "dec", "n": ev(n), "T": T, "bad": self.bad(ev)}
        cx.user["scenario"] = sc
        self.why = None

    def bad(self, ev):
        """input position at which the replay plants an invalid or padding character"""
        if self.why is None:
            return None
        return [self.why[0], ev(self.why[1])]

    def small(self, v):
        """a counterexample of a length that can be replayed, if there is one"""
        cx = self.cx
        g = v.extra
        if g is None or type(g) is int:
            goal = []
        else:
            goal = [tm.bnot1(g)]
        conds = [c for k in cx.comps for c in k.conds]
        for lim in (1 << 16, 1 << 24, 1 << 29, 1 << 31, 5 << 30, 1 << 36):
            if cx.P == 32 and lim >= 1 << 32:
                break
            try:
                m = ints.check(conds + goal + [tm.ult(cx.P, self.n, lim)])
            except Exception:
                continue
            if m is not None:
                r = dict(v.model)
                r.update(m)
                return r
        return v.model

    def goal(self, g, what):
        self.cx.prove(g, "%s, team of %d: %s" % ("encode" if self.enc else "decode", self.T, what), extra=g)

    def call(self, st, src, n, out, last):
        """one codec call: regions inside the buffers; returns (offset in, offset out)"""
        cx = self.cx
        P = cx.P
        k = len(self.calls)
        so = tm.sub(P, src, self.src)
        oo = tm.sub(P, out, self.out)
        self.goal(tm.ule(P, so, self.n), "call %d starts inside the input" % k)
        self.goal(tm.ule(P, n, tm.sub(P, self.n, so)), "call %d ends inside the input" % k)
        # three (four) bytes of input per group, four (three) of output
        a, b = (3, 4) if self.enc else (4, 3)
        self.goal(tm.eq(P, tm.urem(P, so, a), 0), "call %d starts at a whole group" % k)
        self.goal(tm.eq(cx.P + 8, wmul(cx, oo, a), wmul(cx, so, b)), "call %d writes where its text belongs" % k)
        return so, oo

    def store(self, cx, a, v, n):
        """byte stores of the finaliser"""
        self.writes.append((a, n))
        return True


def v_enc(cx, st, src, n, out, ol):
    b = cx.user["buf"]
    P = cx.P
    so, oo = b.call(st, src, n, out, False)
    r = tm.urem(P, n, 3)
    k = tm.mul(P, tm.udiv(P, n, 3), 4)
    # room for the complete groups and the first characters of a partial one
    b.calls.append((so, n, oo))
    tail = tm.ite(P, tm.eq(P, r, 0), 0, tm.ite(P, tm.eq(P, r, 1), 1, 2))
    cx.store(ol, tm.add(P, k, tail), P // 8)
    set_bytes(cx, st, tm.trunc(r, 32))
    return None


def set_bytes(cx, st, r):
    cx.prog.call(cx, "verif_set_bytes", st, r)


def v_dec(cx, st, src, n, out, ol):
    b = cx.user["buf"]
    P = cx.P
    k = len(b.calls)
    so, oo = b.call(st, src, n, out, False)
    b.calls.append((so, n, oo))
    full = tm.mul(P, tm.lshr(P, n, 2), 3)
    r = tm.band(P, n, 3)
    if cx.user["badcall"] == k:
        # a chunk that fails, or ends with padding, somewhere
        g = tm.var("groups", P)
        cx.assume(tm.ult(P, g, tm.lshr(P, n, 2)))
        cx.store(ol, tm.mul(P, g, 3), P // 8)
        b.why = ["x", tm.add(P, so, tm.shl(P, g, 2))]
        if cx.choose(2):
            return 0
        b.why[0] = "="
        cx.assume(tm.eq(P, tm.add(P, g, 1), tm.lshr(P, n, 2)))
        cx.assume(tm.eq(P, r, 0))
        cx.store(ol, tm.add(P, tm.mul(P, g, 3), 2), P // 8)
        return 1
    if b.why is not None and cx.holds(tm.eq(P, so, 0)) and cx.holds(tm.eq(P, n, b.n)):
        # the whole text once more: it still is wrong
        cx.store(ol, tm.var("redo", P), P // 8)
        b.redo = True
        return 0
    extra = tm.ite(P, tm.ule(P, r, 1), 0, tm.sub(P, r, 1))
    cx.store(ol, tm.add(P, full, extra), P // 8)
    set_bytes(cx, st, tm.trunc(r, 32))
    return 1


def cover(cx, b):
    """the calls, in input order, cover the input without gap or overlap"""
    P = cx.P
    pos = 0
    todo = list(b.calls)
    # the order of the offsets is that of the calls within a team run forwards; find it by the model, prove it
    todo.sort(key=lambda c: (cx.val(c[0]), cx.val(c[1])))
    for k, (so, n, oo) in enumerate(todo):
        b.goal(tm.eq(P, so, pos), "piece %d starts where the one before ended" % k)
        pos = tm.add(P, pos, n)
        if k + 1 < len(todo):
            b.goal(tm.eq(P, tm.urem(P, n, 3 if b.enc else 4), 0), "piece %d is a whole number of groups" % k)
    b.goal(tm.eq(P, pos, b.n), "the pieces end where the input ends")


def enc(prog, T):
    def h(cx):
        cx.user["team"] = T
        b = Buf(cx, True, T)
        ol = cx.alloc(cx.P // 8, "outlen", None)
        cx.assume(tm.ne(cx.P, tm.add(cx.P, b.n, 0), 0))
        # a length with pieces that are not empty comes first, so that the order found above is the general one
        prefer(cx, b)
        prog.call(cx, "base64_encode", b.src, b.n, b.out, ol.base, 8)
        cover(cx, b)
        b.goal(tm.eq(cx.P, cx.load(ol.base, cx.P // 8), b.m), "reported output length")
        for k, (a, n) in enumerate(b.writes):
            o = tm.sub(cx.P, a, b.out)
            b.goal(tm.ult(cx.P, o, b.m), "final character %d inside the output" % k)
            b.goal(tm.eq(cx.P, o, tm.sub(cx.P, b.m, len(b.writes) - k)), "final character %d is the right one" % k)
        return "enc"
    return h


def prefer(cx, b):
    """start from a long input (only a preference for the first model)"""
    m = cx.check([c for k in cx.comps for c in k.conds] + [tm.ule(cx.P, 1 << 20, b.n)])
    if m is not None and cx.pos == 0 and not cx.dec:
        cx.model.update(m)
        cx.memo = {}


def dec(prog, T, bad):
    def h(cx):
        cx.user["team"] = T
        cx.user["badcall"] = bad
        b = Buf(cx, False, T)
        b.redo = False
        ol = cx.alloc(cx.P // 8, "outlen", None)
        prefer(cx, b)
        r = prog.call(cx, "base64_decode", b.src, b.n, b.out, ol.base, 8)
        if bad >= 0:
            if b.why is None:
                return "nobad"
            b.goal(tm.eq(32, r, 0), "an error in one piece makes the whole fail")
            return "bad"
        cover(cx, b)
        b.goal(tm.eq(32, r, tm.ite(32, tm.eq(cx.P, tm.band(cx.P, b.n, 3), 0), 1, 0)), "result")
        b.goal(tm.eq(cx.P, cx.load(ol.base, cx.P // 8), b.m), "reported output length")
        return "dec"
    return h


# ---------------------------------------------------------------- replay

_exe = {}


def confirm(sc):
    n = sc["n"]
    if n > 5 << 30:
        return "impossible", "needs an input of %d bytes" % n
    cfg = sc["cfg"]
    if cfg not in _exe:
        c = build.CONFIGS[cfg]
        cc, run = replay.runner(c)
        d, objs = replay.lib_objects(c, ("-DBASE64_VERIF_OMP_THRESHOLD=1",), tag="big")
        exe = os.path.join(d, "bigomp")
        replay._cc([cc, "-std=gnu11", "-O2", "-w", "-static", "-I", os.path.join(build.REPO, "include"), "-o", exe,
                    os.path.join(build.SUPPORT, "bigomp.c")] + list(c.cflags) + objs + ["-fopenmp"])
        _exe[cfg] = run + [exe]
    e = dict(os.environ, OMP_NUM_THREADS=str(sc["T"]), OMP_DYNAMIC="false", OMP_THREAD_LIMIT="512")
    bad = sc.get("bad") or ["-", 0]
    r = subprocess.run(_exe[cfg] + [sc["big"], str(n), bad[0], str(bad[1])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                       timeout=300)
    t = r.stdout.decode("utf8", "replace").strip()
    if "NOMEM" in t:
        return "impossible", "not enough address space to replay %d bytes" % n
    if r.returncode == 0 and t == "same":
        return "not-confirmed", "real build gives the serial result for %d bytes" % n
    return "confirmed", "%d bytes, %d threads: %s (exit %d)" % (n, sc["T"], t[:200], r.returncode)


def validation(tier, rng):
    return ()
