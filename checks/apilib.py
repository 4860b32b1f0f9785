"""Pieces shared by the harnesses that drive the library API."""

from engine import build, terms as tm
from . import spec

FLAG = build.FLAG
ALLCFG = ("x64", "x64-noasm", "i686", "aarch64", "aarch64-noasm", "armhf", "armhf-noasm", "s390x")


def codecs_of(cfg):
    return build.CONFIGS[cfg].codecs()


def hexs(b):
    return bytes(b).hex()


def model_bytes(model, terms):
    memo = {}
    return bytes((t if type(t) is int else tm.evaluate(t, model, memo)) & 255 for t in terms)


def sym(prefix, n):
    return [tm.var("%s%d" % (prefix, i), 8) for i in range(n)]


class Env:
    """buffers and calls of one harness run, with a replay script recorded alongside"""

    def __init__(self, cx, cfg, align=0):
        self.cx = cx
        self.cfg = cfg
        self.W = cx.P // 8
        self.ops = []           # entries: str, or function(model) -> str
        self.nb = 0
        self.ns = 0
        self.nout = 0
        self.align = align
        self.dead = False

    def buf(self, name, data, where="e", align=0, const=False, fill=None):
        """data: list of byte values or int (size; unknown contents)"""
        cx = self.cx
        i = self.nb
        self.nb += 1
        if type(data) is int:
            n = data
            vals = None
            o = cx.alloc(n, name, [tm.var("%s.%d" % (name, k), 8) for k in range(n)] if fill is None else fill,
                         misalign=self.align)
        else:
            n = len(data)
            vals = list(data)
            o = cx.alloc(n, name, vals, misalign=self.align)
        o.const = const
        o.written = set()
        if vals is None:
            self.ops.append("buf %d %d %s %d " % (i, n, where, align))
        else:
            self.ops.append(lambda m, i=i, n=n, v=vals: "buf %d %d %s %d %s" % (i, n, where, align, hexs(model_bytes(m, v))))
        if const:
            self.ops.append("const %d" % i)
        return (i, o)

    def state(self, fill=None):
        i = self.ns
        self.ns += 1
        cx = self.cx
        if fill is None:
            o = cx.alloc(STATE, "state%d" % i, None)
        else:
            o = cx.alloc(STATE, "state%d" % i, fill)
            if type(fill) is list:
                fill = 0xA7
            self.ops.append("sfill %d %d" % (i, fill))
        return (i, o)

    def outlen(self, sentinel=True):
        cx = self.cx
        self.nout += 1
        o = cx.alloc(self.W, "outlen%d" % self.nout, None)
        if sentinel:
            cx.store(o.base, 0x5ca1ab1e, self.W)
        return o

    def init(self, st, kind, flags):
        self.ops.append("%s %d %d" % ("einit" if kind == "e" else "dinit", st[0], flags))
        self.cx.prog.call(self.cx, "base64_stream_encode_init" if kind == "e" else "base64_stream_decode_init", st[1].base,
                          flags)

    def step(self, kind, st, src, so, n, out, oo):
        """stream call; returns (ret term or None, outlen term)"""
        cx = self.cx
        ol = self.outlen()
        self.ops.append("%s %d %d %d %d %d %d" % ("senc" if kind == "e" else "sdec", st[0], src[0], so, n, out[0], oo))
        r = cx.prog.call(cx, "base64_stream_encode" if kind == "e" else "base64_stream_decode", st[1].base,
                         src[1].base + so, n, out[1].base + oo, ol.base)
        return r, cx.load(ol.base, self.W)

    def final(self, st, out, oo):
        cx = self.cx
        ol = self.outlen()
        self.ops.append("sfin %d %d %d" % (st[0], out[0], oo))
        cx.prog.call(cx, "base64_stream_encode_final", st[1].base, out[1].base + oo, ol.base)
        return cx.load(ol.base, self.W)

    def oneshot(self, kind, src, so, n, out, oo, flags):
        cx = self.cx
        ol = self.outlen()
        self.ops.append("%s %d %d %d %d %d %d" % ("enc" if kind == "e" else "dec", src[0], so, n, out[0], oo, flags))
        r = cx.prog.call(cx, "base64_encode" if kind == "e" else "base64_decode", src[1].base + so, n, out[1].base + oo,
                         ol.base, flags)
        return r, cx.load(ol.base, self.W)

    def dump(self, buf, off, n):
        self.ops.append("dump %d %d %d" % (buf[0], off, n))

    def margin(self, buf):
        self.ops.append("margin %d" % buf[0])

    def script(self, model):
        return [o if type(o) is str else o(model) for o in self.ops]


STATE = 64


def scenario(env, expect, extra_ops=(), key=None, defs=(), interp=True):
    """Returns the function stored in cx.user['scenario']; expect(model) -> expected lines of the whole script."""
    def f(viol):
        m = viol.model
        sc = {"cfg": env.cfg, "ops": env.script(m) + list(extra_ops), "expect": expect(m)}
        if key is not None:
            sc["key"] = key(m)
        if defs:
            sc["defs"] = list(defs)
        return sc
    return f


# ---------------------------------------------------------------- concrete scripts for translator validation

def rand_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def rand_b64(rng, n):
    """mostly valid base64 text of n characters"""
    t = bytearray(rng.choice(spec.ALPHA) for _ in range(n))
    k = rng.random()
    if n and k < 0.25:
        t[rng.randrange(n)] = rng.getrandbits(8)
    elif n and k < 0.45:
        t[-1] = 61
        if n > 1 and rng.random() < 0.5:
            t[-2] = 61
    return bytes(t)


def script_enc(rng, codec, n):
    d = rand_bytes(rng, n)
    m = (n + 2) // 3 * 4
    return ["buf 0 %d e 0 %s" % (n, hexs(d)), "buf 1 %d e 0 " % (m + 8), "enc 0 0 %d 1 0 %d" % (n, FLAG[codec]), "dump 1 0 %d" % m]


def script_dec(rng, codec, n):
    d = rand_b64(rng, n)
    m = n
    return ["buf 0 %d e 0 %s" % (n, hexs(d)), "buf 1 %d e 0 " % (m + 8), "dec 0 0 %d 1 0 %d" % (n, FLAG[codec]),
            "dump 1 0 %d" % (spec.ref_decode(d)[1].__len__())]


def script_senc(rng, codec, n):
    cuts = sorted(rng.randrange(n + 1) for _ in range(3))
    d = rand_bytes(rng, n)
    m = (n + 2) // 3 * 4
    ops = ["buf 0 %d e 0 %s" % (n, hexs(d)), "buf 1 %d e 0 " % (m + 16), "sfill 0 90", "einit 0 %d" % FLAG[codec]]
    a = 0
    for b in cuts + [n]:
        ops.append("senc 0 0 %d %d 1 %d" % (a, b - a, a * 8 // 6))
        a = b
    ops.append("sfin 0 1 %d" % (n * 8 // 6))
    ops.append("dump 1 0 %d" % m)
    return ops


def script_sdec(rng, codec, n):
    d = rand_b64(rng, n)
    cuts = sorted(rng.randrange(n + 1) for _ in range(3))
    ops = ["buf 0 %d e 0 %s" % (n, hexs(d)), "buf 1 %d e 0 " % (n + 16), "sfill 0 90", "dinit 0 %d" % FLAG[codec]]
    a = 0
    r = spec.RefDec(spec.Conc)
    for b in cuts + [n]:
        ops.append("sdec 0 0 %d %d 1 %d" % (a, b - a, len(r.out)))
        r.feed(list(d[a:b]))
        a = b
    ops.append("dump 1 0 %d" % len(r.out))
    return ops
