"""Harnesses for texts of every length: loops by induction (engine/induct.py)."""

import fcntl
import os
import subprocess
import time
from engine import build, core, induct, terms as tm
from . import replay, spec
from .apilib import FLAG, sym
from .frame import Task

STATE = 64


class Undecided(induct.Undecided):
    pass


class Long:
    """a call on input of symbolic length"""

    def __init__(self, cx, prog, kind, b):
        P = cx.P
        self.cx = cx
        self.prog = prog
        self.enc = kind == "e"
        self.b = b
        self.pre = sym("pre", b)
        self.n = cx.addrvar("n", 0, cx.NMAX)
        cx.S.size = self.n
        t = tm.add(P, self.n, b)
        cx.O.size = self.outsize(t)
        cx.specbyte = self.specbyte
        self.valid = False
        cx.user["long"] = self

    def outsize(self, t):
        P = self.cx.P
        if self.enc:
            return tm.mul(P, tm.udiv(P, tm.add(P, t, 2), 3), 4)
        # 3/4 of the characters, rounded down, without overflow
        return tm.add(P, tm.mul(P, tm.udiv(P, t, 4), 3), tm.udiv(P, tm.mul(P, tm.urem(P, t, 4), 3), 4))

    # positions: the first input byte of the region has index b in the whole stream

    def src(self, j, off):
        """stream byte at offset off of source base j"""
        cx = self.cx
        if j == 0 and off < 0:
            i = self.b + off
            return self.pre[i] if i >= 0 else None
        if j == 0:
            return cx.srcbyte(0, off)
        # the same place relative to the start, where that is known
        d = induct.lindiff(cx.S.bases[j][1], cx.S.bases[0][1], cx.P)
        if d is not None:
            return self.src(0, off + d)
        return cx.srcbyte(j, off)

    def place(self, k):
        """for output base k: (source base j, D): (x * stream position of j) = (y * position of k) + D"""
        x, y = (4, 3) if self.enc else (3, 4)
        r = self.cx.relation(k, x, y)
        if r is None:
            return None
        return r[0], r[1] + x * self.b

    def specbyte(self, k, off):
        h = self.place(k)
        if h is None:
            return None
        j, D = h
        if self.enc:
            # character at output position p starts at bit 6p = 8*s + (6*off - 2D)
            # s: stream position of base j;  4s = 3p0 + D  =>  6*p0 = 8*s - 2D
            c, r = divmod(6 * off - 2 * D, 8)
            a = self.src(j, c)
            b = self.src(j, c + 1) if r > 2 else 0
            if a is None or b is None:
                return None
            t = tm.concat([(8, a), (8, b)])
            x = (t >> (10 - r)) & 63 if type(t) is int else tm.ext(t, 15 - r, 10 - r)
            return spec.ENC[x] if type(x) is int else tm.tbl(8, spec.ENC, x)
        # 3s = 4*p0 + D: byte at p0+off starts at bit 8*(p0+off) = 6s - 2D + 8*off
        c, r = divmod(8 * off - 2 * D, 6)
        if r not in (0, 2, 4):
            return None
        a, b = self.src(j, c), self.src(j, c + 1)
        if a is None or b is None:
            return None
        for v in (a, b):
            if not self.cx.holds(spec.is_valid(v)):
                return None
        sh = {0: (2, 4), 2: (4, 2), 4: (6, 0)}[r]
        x, y = spec.value(a), spec.value(b)
        return tm.bor(8, tm.shl(8, x, sh[0]), tm.lshr(8, y, sh[1]))

    def assume_valid(self):
        """every character but the last two of the input is assumed to be in the alphabet"""
        cx = self.cx
        P = cx.P
        self.valid = True

        def onread(j, off, v):
            e = cx.addr(cx.S, j, off + 3)
            if cx.holds(tm.ule(P, e, tm.add(P, cx.S.base, self.n))):
                cx.assume(spec.is_valid(v))
        cx.onread = onread

    # the end

    def stop(self):
        """(source base, offset, output base, offset) of the group at the frontier"""
        cx = self.cx
        cx.walk()
        k, off = cx.front
        h = self.place(k)
        if h is None:
            raise Undecided("position of the output not related to that of the input")
        j, D = h
        if self.enc:
            # group start: multiple of 4 in the output: 4s = 3(p0) + D, p0 = position of base k
            # p0 mod 4 = (D * (-3)^-1) mod 4:  3 p0 = -D mod 4  =>  p0 = D mod 4 (as 3 * 3 = 1 mod 4, p0 = -3D = D)
            r = (D + off) % 4
            c, q = divmod(6 * (off - r) - 2 * D, 8)
            assert q == 0
            return j, c, k, off - r
        # 3s = 4 p0 + D => 4 p0 = -D mod 3 => p0 = -D mod 3
        r = (off - D) % 3
        c, q = divmod(8 * (off - r) - 2 * D, 6)
        assert q == 0
        return j, c, k, off - r

    def remaining(self, j, c):
        """number of stream bytes from there on, if the path leaves one possibility"""
        cx = self.cx
        P = cx.P
        a = cx.addr(cx.S, j, c)
        e = tm.add(P, cx.S.base, self.n)
        d = induct.signed((cx.val(e) - cx.val(a)) & ((1 << P) - 1), P)
        if cx.holds(tm.eq(P, e, tm.add(P, a, d & ((1 << P) - 1)))):
            return d
        return None

    def outat(self, k, off):
        d = self.cx.over.get(k, {})
        return d.get(off)

    def check_tail(self, want, k, g, total, what):
        """bytes want at output base k, offset g; output length total (from the start of the output region)"""
        cx = self.cx
        P = cx.P
        cx.prove(tm.eq(P, tm.add(P, cx.O.base, total), cx.addr(cx.O, k, g + len(want))), what + ": output length")
        f = cx.front[1] if cx.front[0] == k else None
        for i, w in enumerate(want):
            if f is not None and g + i < f:
                continue
            v = self.outat(k, g + i)
            if v is None:
                raise Undecided("output byte not seen")
            cx.prove(tm.eq(8, v, w), what + ": output byte at the end")


def state(cx, kind, flags):
    st = cx.alloc(STATE, "state", None)
    st.cells = {}
    cx.prog.call(cx, "base64_stream_encode_init" if kind == "e" else "base64_stream_decode_init", st.base, flags)
    return st


def outlen(cx):
    o = cx.alloc(cx.P // 8, "outlen", None)
    o.cells = {}
    cx.store(o.base, 0x5ca1ab1e, cx.P // 8)
    return o


def encode(prog, codec, b):
    """b < 0: one-shot; otherwise stream, with b bytes fed before"""
    def h(cx):
        P = cx.P
        W = P // 8
        L = Long(cx, prog, "e", max(b, 0))
        what = "%s encoder" % codec
        ol = outlen(cx)
        if b < 0:
            prog.call(cx, "base64_encode", cx.S.base, L.n, cx.O.base, ol.base, FLAG[codec])
            total = cx.load(ol.base, W)
        else:
            st = state(cx, "e", FLAG[codec])
            total = 0
            if b:
                cx.cutting = False
                o = cx.alloc(b, "pre", L.pre)
                prog.call(cx, "base64_stream_encode", st.base, o.base, b, cx.O.base, ol.base)
                total = cx.load(ol.base, W)
                cx.cutting = True
            prog.call(cx, "base64_stream_encode", st.base, cx.S.base, L.n, tm.add(P, cx.O.base, total), ol.base)
            total = tm.add(P, total, cx.load(ol.base, W))
            prog.call(cx, "base64_stream_encode_final", st.base, tm.add(P, cx.O.base, total), ol.base)
            total = tm.add(P, total, cx.load(ol.base, W))
        j, c, k, g = L.stop()
        rem = L.remaining(j, c)
        if rem is None:
            raise Undecided("number of bytes left at the end not known")
        if rem < 0 or rem > 64:
            raise Undecided("%d bytes left at the end" % rem)
        want = spec.enc_terms([L.src(j, c + i) for i in range(rem)])
        L.check_tail(want, k, g, total, what)
        return "tail%d" % rem
    return h


def decode(prog, codec, b, valid):
    def h(cx):
        P = cx.P
        W = P // 8
        L = Long(cx, prog, "d", max(b, 0))
        what = "%s decoder" % codec
        if valid:
            L.assume_valid()
        ol = outlen(cx)
        if b < 0:
            ret = prog.call(cx, "base64_decode", cx.S.base, L.n, cx.O.base, ol.base, FLAG[codec])
            total = cx.load(ol.base, W)
        else:
            st = state(cx, "d", FLAG[codec])
            total = 0
            if b:
                cx.cutting = False
                for x in L.pre:
                    cx.assume(spec.is_valid(x))
                o = cx.alloc(b, "pre", L.pre)
                prog.call(cx, "base64_stream_decode", st.base, o.base, b, cx.O.base, ol.base)
                total = cx.load(ol.base, W)
                cx.cutting = True
            ret = prog.call(cx, "base64_stream_decode", st.base, cx.S.base, L.n, tm.add(P, cx.O.base, total), ol.base)
            total = tm.add(P, total, cx.load(ol.base, W))
        j, c, k, g = L.stop()
        rem = L.remaining(j, c)
        pos = [0]

        def nxt():
            i = pos[0]
            if rem is not None:
                more = i < rem
            else:
                a = cx.addr(cx.S, j, c + i + 1)
                more = cx.branch(tm.ule(P, a, tm.add(P, cx.S.base, L.n)))
            if i > 80:
                raise Undecided("long way from the frontier to the end")
            if not more:
                return None
            pos[0] += 1
            return L.src(j, c + i)
        v, out, whole = judge(cx, nxt)
        if b < 0 and v and not whole:
            v = 0
        cx.prove(tm.eq(32, ret, v), what + ": result")
        L.check_tail(out, k, g, total, what)
        return "ret%d" % v
    return h


def judge(cx, nxt):
    """reference decoder from the start of a group: (result of the stream call, bytes, complete text)"""
    r = spec.RefDec(cx)
    while True:
        ch = nxt()
        if ch is None:
            return 1, r.out, not r.vals
        if cx.branch(spec.is_valid(ch)):
            r.vals.append(spec.value(ch))
            if len(r.vals) >= 2:
                r._emit()
            if len(r.vals) == 4:
                r.vals = []
            continue
        k = len(r.vals)
        pad = cx.branch(tm.eq(8, ch, spec.PAD))
        if pad and k == 3:
            return (1 if nxt() is None else 0), r.out, True
        if pad and k == 2:
            ch = nxt()
            if ch is None:
                return 1, r.out, False
            if not cx.branch(tm.eq(8, ch, spec.PAD)):
                return 0, r.out, False
            return (1 if nxt() is None else 0), r.out, True
        return 0, r.out, False


# ---------------------------------------------------------------- running, and checking counterexamples on the real build

TRIES = (60, 8)          # runs per task on short and on long inputs
_exe = {}


def make(name, kw):
    """a program whose loop heads are cut points"""
    p = build.program(name, **kw)
    p.cuts = True
    return p


# what the properties about single calls and streams have to say about inputs of any length
KINDS = {"C01": [("e", 0)], "C02": [("e", 1)], "C03": [("d", 0)], "C04": [("a", 0)], "C05": [("a", 1)],
         "C06": [("e", 0), ("d", 0)], "C07": [("e", 0), ("e", 1)], "C08": [("a", 0), ("d", 1)]}


def extra(prop, tier, rng, bounds):
    """tasks for every length, besides those for every input up to a bound; the check of C19 has all of them"""
    out = []
    bounds["every length"] = "besides: loops by induction, every length up to 2^46 (2^30 with 32-bit addresses), some codecs and builds"
    for cfg, codecs in (("x64", ("plain", "ssse3", "avx2", "avx512")), ("x64-noasm", ("ssse3", "avx2")),
                        ("aarch64-noasm", ("neon64",)), ("i686", ("plain",)), ("s390x", ("plain",))):
        for c in codecs:
            for k, stream in KINDS[prop]:
                if cfg == "x64-noasm" and k != "e" or prop == "C06" and c not in ("plain", "avx2"):
                    continue
                if c == "neon64" and k == "a":
                    k = "d"
                bs = (-1,) if not stream else (1, 2) if k == "e" else (1, 2, 3)
                if tier == "quick":
                    bs = (rng.choice(bs),)
                for b in bs:
                    out.append(Task(cfg, "long", c, k, b, 100 if tier == "quick" else 600, prop in ("C07", "C08"), cost=1500))
    return out


def long(prog, *a):
    return task(prog, *a)


def task(prog, codec, kind, b, seconds=600, memory=False):
    """kind: e encode, d decode text that is right up to its end, a decode any bytes; memory: only accesses outside the
    buffers count"""
    h = encode(prog, codec, b) if kind == "e" else decode(prog, codec, b, kind == "d")
    done = {}
    runs = [0, 0]
    of = {}
    found = []

    def judge(v):
        if "long" not in v.cx.user:
            return False
        if sum(runs) >= sum(TRIES) or of.get(v.what, 0) >= 12:
            return False
        for sc in scenarios(v, codec, kind, b, done):
            big = sc["n"] > 1 << 25
            if runs[big] >= TRIES[big]:
                continue
            runs[big] += 1
            of[v.what] = of.get(v.what, 0) + 1
            if memory:
                sc["memory"] = 1
            st, text = confirm(sc)
            if st == "confirmed":
                found.append(sc)
                return True
        return False
    r = induct.explore(prog, h, induct.Store(), time.time() + seconds, judge=judge)
    res = core.Result()
    for a in ("paths", "transitions", "steps", "obl", "obl_syntactic"):
        setattr(res, a, getattr(r, a))
    if r.violation is not None:
        res.violation = core.Violation(r.violation.what, None, None, found[0])
        res.values = r.values
        return res
    if r.doubts or not r.complete:
        # the loops could not be described: nothing is claimed for this task
        res.paths = max(1, res.paths)
        res.doubts = r.doubts
        res.values = ["undecided: " + (r.doubts[0] if r.doubts else "time")]
        return res
    res.doubts = r.doubts
    res.values = ["proved for every length"] + list(r.values)
    return res


def scenarios(v, codec, kind, b, done):
    """concrete calls for a counterexample: the smallest lengths that its path allows first"""
    cx = v.cx
    P = cx.P
    L = cx.user["long"]
    cfg = cx.prog.name
    native = not replay.runner(build.CONFIGS[cfg])[1]
    tops = [1 << 9, 1 << 13, (1 << 16) + (1 << 10), 1 << 20, (1 << 24) + (1 << 12)]
    if native:
        tops.append(1 << 28)
        if P == 64:
            tops += [(1 << 31) + (1 << 12), (1 << 32) + (1 << 16), 5 << 30]
        else:
            tops.append(1 << 30)
    goal = getattr(v, "goal", 0)
    doubt = getattr(v, "doubt", False)
    got = 0
    last = 0
    for top in tops:
        # no particular fact is at stake: one length of every size
        m = cx.smaller(1 if doubt else goal, [tm.ule(P, L.n, top), tm.ule(P, last, L.n)])
        if doubt:
            last = top
        if m is None:
            continue
        memo = {}
        ev = lambda t: tm.evaluate(t, m, memo) if type(t) is not int else t
        n = ev(L.n)
        patch = {}
        for x in cx.seen:
            j, off = x.a[0][2:].split("_")
            pos = ev(cx.S.bases[int(j)][0]) + int(off) - cx.S.base
            if x in m and 0 <= pos < n:
                patch[pos] = m[x]
        pre = "".join("%02x" % ev(x) for x in L.pre)
        new = False
        for place, seed, p in (("e", 1, patch), ("s", 2, patch), ("e", 3, {})):
            # contents matter where a byte is wrong or the text is not; otherwise one run of a length is enough
            key = (n, place, tuple(sorted(p.items())) if kind != "e" or len(done) < 40 else ())
            if key in done or doubt and place == "s":
                continue
            done[key] = 1
            new = True
            yield {"cfg": cfg, "long": "enc" if kind == "e" else "dec", "flags": FLAG[codec], "pre": "1" if b < 0 else pre or "-",
                   "n": n, "place": place, "seed": seed, "patch": sorted(p.items())}
        got += new
        if got >= 5 and not doubt:
            return


def confirm(sc):
    if "long" not in sc:
        return replay.confirm(sc)
    cfg = sc["cfg"]
    c = build.CONFIGS[cfg]
    try:
        cc, run = replay.runner(c)
    except replay.NoReplay as e:
        return "impossible", str(e)
    with open(os.path.join(build.workdir(), "big.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = os.path.join(build.workdir(), "bigrun-" + cfg)
        if not os.path.exists(exe):
            d, objs = replay.lib_objects(c, tag="big")
            replay._cc([cc, "-std=gnu11", "-O2", "-w", "-static", "-I", os.path.join(build.REPO, "include"), "-o", exe,
                        os.path.join(build.SUPPORT, "bigrun.c")] + list(c.cflags) + objs + (["-fopenmp"] if c.omp else []))
        try:
            r = subprocess.run(run + [exe, sc["long"], str(sc["flags"]), sc["pre"], str(sc["n"]), sc["place"], str(sc["seed"])] +
                               ["%d:%d" % tuple(p) for p in sc["patch"]],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=240)
        except subprocess.TimeoutExpired:
            return "impossible", "a run on %d bytes takes too long" % sc["n"]
    t = r.stdout.decode("utf8", "replace").strip()
    if r.returncode == 1 and sc.get("memory"):
        return "not-confirmed", "the real build stays inside its buffers on %d bytes" % sc["n"]
    if r.returncode in (1, 3):
        return "confirmed", "%s of %d bytes: %s" % (sc["long"], sc["n"], t[:200])
    if r.returncode == 0:
        return "not-confirmed", "the real build does the right thing on %d bytes" % sc["n"]
    return "impossible", "exit %d: %s" % (r.returncode, t[:100])
