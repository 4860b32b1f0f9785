"""LLVM and target intrinsics.  Vectors are tuples of lanes (lane 0 first)."""

from . import terms as tm
from .irparse import Unsupported

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def find(name):
    n = name
    while True:
        f = TABLE.get(n)
        if f is not None:
            return f
        if "." not in n:
            return None
        n = n[:n.rindex(".")]
        if n == "llvm":
            return None


class Info:
    __slots__ = ("name", "ret", "args", "mod", "prog", "w", "n")


def width(mod, prog, ty):
    ty = mod.res(ty)
    if ty[0] == "i":
        return ty[1]
    if ty[0] == "ptr":
        return prog.ptrbits
    if ty[0] == "vec":
        return width(mod, prog, ty[2])
    return 0


_CACHES = {}


def bind(fn, name, ret, args, mod, prog):
    inf = Info()
    inf.name = name
    inf.ret = ret
    inf.args = args
    inf.mod = mod
    inf.prog = prog
    inf.w = width(mod, prog, ret)
    inf.n = ret[1] if ret[0] == "vec" else 0

    def call(cx, *a):
        return fn(cx, inf, *a)

    def memo(cx, *a):
        r = cache.get(a)
        if r is None:
            r = fn(cx, inf, *a)
            cache[a] = r
        return r
    if any(t[0] == "ptr" for t in args) or not (ret[0] == "vec" or any(t[0] == "vec" for t in args)):
        return call
    cache = _CACHES.setdefault((name, ret, args), {})
    return memo


# ------------------------------------------------------------ lane primitives

def usubsat(w, a, b):
    return tm.ite(w, tm.ult(w, a, b), 0, tm.sub(w, a, b))


def uaddsat(w, a, b):
    s = tm.add(w, a, b)
    return tm.ite(w, tm.ult(w, s, a), (1 << w) - 1, s)


def ssat(w, x, xw):
    """saturate a signed xw-bit value to w bits"""
    hi = (1 << (w - 1)) - 1
    lo = (1 << xw) - (1 << (w - 1))
    r = tm.trunc(x, w)
    r = tm.ite(w, tm.slt(xw, hi, x), hi, r)
    return tm.ite(w, tm.slt(xw, x, lo), 1 << (w - 1), r)


def usat_from_signed(w, x, xw):
    m = (1 << w) - 1
    r = tm.trunc(x, w)
    r = tm.ite(w, tm.slt(xw, m, x), m, r)
    return tm.ite(w, tm.slt(xw, x, 0), 0, r)


def ssubsat(w, a, b):
    x = tm.sub(w + 1, tm.sext(a, w, w + 1), tm.sext(b, w, w + 1))
    return ssat(w, x, w + 1)


def saddsat(w, a, b):
    x = tm.add(w + 1, tm.sext(a, w, w + 1), tm.sext(b, w, w + 1))
    return ssat(w, x, w + 1)


def umin(w, a, b):
    return tm.ite(w, tm.ult(w, a, b), a, b)


def _masklike(w, a):
    if type(a) is int:
        return a == 0 or a == (1 << w) - 1
    return a.op == "sext" and a.a[0].w == 1


def umax(w, a, b):
    if _masklike(w, a) and _masklike(w, b):
        return tm.bor(w, a, b)
    return tm.ite(w, tm.ult(w, a, b), b, a)


def smin(w, a, b):
    return tm.ite(w, tm.slt(w, a, b), a, b)


def smax(w, a, b):
    return tm.ite(w, tm.slt(w, a, b), b, a)


def mulhu(w, a, b):
    return tm.ext(tm.mul(2 * w, tm.zext(a, w, 2 * w), tm.zext(b, w, 2 * w)), 2 * w - 1, w)


def mulhs(w, a, b):
    return tm.ext(tm.mul(2 * w, tm.sext(a, w, 2 * w), tm.sext(b, w, 2 * w)), 2 * w - 1, w)


def map2(f):
    def g(cx, inf, a, b, *rest):
        if inf.n:
            return tuple([f(inf.w, x, y) for x, y in zip(a, b)])
        return f(inf.w, a, b)
    return g


for _n, _f in (("usub.sat", usubsat), ("uadd.sat", uaddsat), ("ssub.sat", ssubsat), ("sadd.sat", saddsat),
               ("umin", umin), ("umax", umax), ("smin", smin), ("smax", smax)):
    TABLE["llvm." + _n] = map2(_f)


# ------------------------------------------------------------ generic llvm.*

@reg("llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline")
def _memcpy(cx, inf, d, s, n, vol):
    cx.memcpy(d, s, n)


@reg("llvm.memset")
def _memset(cx, inf, d, v, n, vol):
    cx.memset(d, v, n)


def bswap(w, a):
    if type(a) is int:
        return int.from_bytes(a.to_bytes(w // 8, "little"), "big")
    return tm.concat([(8, tm.ext(a, 8 * i + 7, 8 * i)) for i in range(w // 8)])


@reg("llvm.bswap")
def _bswap(cx, inf, a):
    if inf.n:
        return tuple([bswap(inf.w, x) for x in a])
    return bswap(inf.w, a)


@reg("llvm.expect")
def _expect(cx, inf, a, b):
    return a


@reg("llvm.expect.with.probability")
def _expectp(cx, inf, a, b, c):
    return a


@reg("llvm.is.constant")
def _isconst(cx, inf, a):
    return 0


@reg("llvm.objectsize")
def _objsize(cx, inf, *a):
    return (1 << inf.w) - 1


@reg("llvm.stacksave")
def _stacksave(cx, inf):
    return 0


@reg("llvm.stackrestore")
def _stackrestore(cx, inf, a):
    return None


@reg("llvm.trap", "llvm.debugtrap", "llvm.ubsantrap")
def _trap(cx, inf, *a):
    from .core import Violation
    cx.event("trap")
    raise Violation("trap instruction reached", dict(cx.model), cx)


def fsh(left):
    def f(cx, inf, a, b, c):
        w = inf.w

        def one(x, y, n):
            n = cx.concretize(tm.urem(w, n, w))
            v = tm.concat(((w, x), (w, y)))
            if left:
                return tm.ext(v, 2 * w - 1 - n, w - n)
            return tm.ext(v, n + w - 1, n)
        if inf.n:
            return tuple([one(x, y, z) for x, y, z in zip(a, b, c)])
        return one(a, b, c)
    return f


TABLE["llvm.fshl"] = fsh(True)
TABLE["llvm.fshr"] = fsh(False)


@reg("llvm.bitreverse")
def _bitrev(cx, inf, a):
    return tm.concat([(1, tm.ext(a, i, i)) for i in range(inf.w)])


def lanes1(f):
    def g(cx, inf, a, *r):
        if inf.n:
            return tuple([f(inf.w, x) for x in a])
        return f(inf.w, a)
    return g


def ctpop(w, a):
    if type(a) is int:
        return bin(a).count("1")
    r = 0
    for i in range(w):
        r = tm.add(w, r, tm.zext(tm.ext(a, i, i), 1, w))
    return r


def cttz(w, a):
    r = w
    for i in range(w - 1, -1, -1):
        r = tm.ite(w, tm.ext(a, i, i), i & ((1 << w) - 1), r)
    return r & ((1 << w) - 1) if type(r) is int else r


def ctlz(w, a):
    r = w & ((1 << w) - 1)
    for i in range(w):
        r = tm.ite(w, tm.ext(a, i, i), w - 1 - i, r)
    return r


TABLE["llvm.ctpop"] = lanes1(ctpop)
TABLE["llvm.cttz"] = lanes1(cttz)
TABLE["llvm.ctlz"] = lanes1(ctlz)
TABLE["llvm.abs"] = lanes1(lambda w, a: tm.ite(w, tm.slt(w, a, 0), tm.sub(w, 0, a), a))


def reduce_(f):
    def g(cx, inf, a):
        r = a[0]
        for x in a[1:]:
            r = f(inf.w, r, x)
        return r
    return g


for _n, _f in (("or", tm.bor), ("and", tm.band), ("xor", tm.bxor), ("add", tm.add), ("umax", umax),
               ("umin", umin), ("smax", smax), ("smin", smin), ("mul", tm.mul)):
    TABLE["llvm.vector.reduce." + _n] = reduce_(_f)


def ovf(kind):
    def g(cx, inf, a, b):
        w = width(inf.mod, inf.prog, inf.args[0])
        signed = kind[0] == "s"
        e = tm.sext if signed else tm.zext
        W = 2 * w if "mul" in kind else w + 1
        x, y = e(a, w, W), e(b, w, W)
        f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[kind[1:]]
        r = f(W, x, y)
        lo = tm.trunc(r, w)
        return (lo, tm.bnot1(tm.eq(W, r, e(lo, w, W))))
    return g


for _k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
    TABLE["llvm.%s.with.overflow" % _k] = ovf(_k)


@reg("llvm.masked.load")
def _mload(cx, inf, p, al, mask, passthru):
    eb = inf.w // 8
    out = []
    for i in range(inf.n):
        if cx.branch(mask[i]):
            out.append(cx.load(tm.add(cx.P, p, i * eb), eb))
        else:
            out.append(passthru[i])
    return tuple(out)


@reg("llvm.masked.store")
def _mstore(cx, inf, v, p, al, mask):
    t = inf.mod.res(inf.args[0])
    eb = width(inf.mod, inf.prog, t) // 8
    for i in range(t[1]):
        if cx.branch(mask[i]):
            cx.store(tm.add(cx.P, p, i * eb), v[i], eb)


@reg("llvm.va_start", "llvm.va_end", "llvm.va_copy")
def _va(cx, inf, *a):
    raise Unsupported("varargs")


# ------------------------------------------------------------ x86

def shuf_lookup(lut, idx):
    """byte shuffle: 0 if bit 7 of idx, else lut[idx & 15]"""
    if type(idx) is int:
        return 0 if idx & 0x80 else lut[idx & 15]
    if all(type(x) is int for x in lut):
        return tm.tbl(8, tuple([0 if i & 0x80 else lut[i & 15] for i in range(256)]), idx)
    lo = tm.ext(idx, 3, 0)
    r = lut[0]
    for i in range(1, 16):
        r = tm.ite(8, tm.eq(4, lo, i), lut[i], r)
    return tm.ite(8, tm.ext(idx, 7, 7), 0, r)


def pshufb(a, m):
    out = []
    for k in range(0, len(a), 16):
        lut = a[k:k + 16]
        for x in m[k:k + 16]:
            out.append(shuf_lookup(lut, x))
    return tuple(out)


@reg("llvm.x86.ssse3.pshuf.b.128", "llvm.x86.avx2.pshuf.b", "llvm.x86.avx512.pshuf.b.512")
def _pshufb(cx, inf, a, m):
    return pshufb(a, m)


def pmaddubs(a, b):
    out = []
    for i in range(0, len(a), 2):
        p = tm.mul(18, tm.zext(a[i], 8, 18), tm.sext(b[i], 8, 18))
        q = tm.mul(18, tm.zext(a[i + 1], 8, 18), tm.sext(b[i + 1], 8, 18))
        out.append(ssat(16, tm.add(18, p, q), 18))
    return tuple(out)


@reg("llvm.x86.ssse3.pmadd.ub.sw.128", "llvm.x86.avx2.pmadd.ub.sw", "llvm.x86.avx512.pmaddubs.w.512")
def _pmaddubs(cx, inf, a, b):
    return pmaddubs(a, b)


def pmaddwd(a, b):
    out = []
    for i in range(0, len(a), 2):
        p = tm.mul(32, tm.sext(a[i], 16, 32), tm.sext(b[i], 16, 32))
        q = tm.mul(32, tm.sext(a[i + 1], 16, 32), tm.sext(b[i + 1], 16, 32))
        out.append(tm.add(32, p, q))
    return tuple(out)


@reg("llvm.x86.sse2.pmadd.wd", "llvm.x86.avx2.pmadd.wd", "llvm.x86.avx512.pmaddw.d.512")
def _pmaddwd(cx, inf, a, b):
    return pmaddwd(a, b)


@reg("llvm.x86.sse2.pmulhu.w", "llvm.x86.avx2.pmulhu.w", "llvm.x86.avx512.pmulhu.w.512")
def _pmulhu(cx, inf, a, b):
    return tuple([mulhu(16, x, y) for x, y in zip(a, b)])


@reg("llvm.x86.sse2.pmulh.w", "llvm.x86.avx2.pmulh.w", "llvm.x86.avx512.pmulh.w.512")
def _pmulh(cx, inf, a, b):
    return tuple([mulhs(16, x, y) for x, y in zip(a, b)])


def _shift_imm(f):
    def g(cx, inf, a, n):
        n = cx.concretize(n)
        w = inf.w
        return tuple([f(w, x, n) for x in a])
    return g


def _shift_reg(f):
    def g(cx, inf, a, c):
        w = inf.w
        n = cx.concretize(tm.concat([(w, x) for x in reversed(c[:64 // w])]))
        return tuple([f(w, x, min(n, 255)) for x in a])
    return g


for _f, _o in ((tm.lshr, "psrl"), (tm.shl, "psll"), (tm.ashr, "psra")):
    for _e in "wdq":
        TABLE["llvm.x86.sse2.%si.%s" % (_o, _e)] = _shift_imm(_f)
        TABLE["llvm.x86.avx2.%si.%s" % (_o, _e)] = _shift_imm(_f)
        TABLE["llvm.x86.avx512.%si.%s.512" % (_o, _e)] = _shift_imm(_f)
        TABLE["llvm.x86.sse2.%s.%s" % (_o, _e)] = _shift_reg(_f)
        TABLE["llvm.x86.avx2.%s.%s" % (_o, _e)] = _shift_reg(_f)
        TABLE["llvm.x86.avx512.%s.%s.512" % (_o, _e)] = _shift_reg(_f)


def _shiftv(f):
    def g(cx, inf, a, c):
        w = inf.w
        out = []
        for x, n in zip(a, c):
            if type(n) is int:
                out.append(f(w, x, min(n, w)) if f is not tm.ashr else f(w, x, min(n, w - 1)))
            else:
                out.append(f(w, x, n))
        return tuple(out)
    return g


for _f, _o in ((tm.lshr, "psrlv"), (tm.shl, "psllv"), (tm.ashr, "psrav")):
    for _p in ("avx2", "avx512"):
        for _e in ("w", "d", "q"):
            for _s in ("", ".128", ".256", ".512"):
                TABLE["llvm.x86.%s.%s.%s%s" % (_p, _o, _e, _s)] = _shiftv(_f)


def conj_zero(w, xs):
    r = 1
    for x in xs:
        r = tm.band(1, r, tm.eq(w, x, 0))
        if type(r) is int and r == 0:
            return 0
    return r


def ptest(kind):
    def g(cx, inf, a, b):
        w = width(inf.mod, inf.prog, inf.args[0])
        m = (1 << w) - 1
        z = conj_zero(w, [tm.band(w, x, y) for x, y in zip(a, b)])
        c = conj_zero(w, [tm.band(w, tm.bxor(w, x, m), y) for x, y in zip(a, b)])
        if kind == "z":
            r = z
        elif kind == "c":
            r = c
        else:
            r = tm.band(1, tm.bnot1(z), tm.bnot1(c))
        return tm.zext(r, 1, 32)
    return g


for _k in ("z", "c", "nzc"):
    TABLE["llvm.x86.sse41.ptest" + _k] = ptest(_k)
    TABLE["llvm.x86.avx.ptest%s.256" % _k] = ptest(_k)


@reg("llvm.x86.sse2.pmovmskb.128", "llvm.x86.avx2.pmovmskb")
def _movmsk(cx, inf, a):
    bits = [(1, tm.ext(x, 7, 7)) for x in reversed(a)]
    if len(bits) < 32:
        bits = [(32 - len(bits), 0)] + bits
    return tm.concat(bits)


def select_lane(w, lanes, idx, iw):
    """lanes[idx], idx of iw bits, len(lanes) == 1 << iw"""
    if type(idx) is int:
        return lanes[idx]
    if all(type(x) is int for x in lanes):
        return tm.tbl(w, tuple(lanes), idx)
    r = lanes[0]
    for i in range(1, len(lanes)):
        r = tm.ite(w, tm.eq(iw, idx, i), lanes[i], r)
    return r


@reg("llvm.x86.avx2.permd", "llvm.x86.avx512.permvar.qi", "llvm.x86.avx512.permvar.hi",
     "llvm.x86.avx512.permvar.si", "llvm.x86.avx512.permvar.di")
def _permvar(cx, inf, a, idx):
    n = len(a)
    k = n.bit_length() - 1
    return tuple([select_lane(inf.w, a, tm.trunc(i, k), k) for i in idx])


@reg("llvm.x86.avx512.vpermi2var")
def _permi2(cx, inf, a, idx, b):
    n = len(a)
    k = n.bit_length()
    lanes = tuple(a) + tuple(b)
    return tuple([select_lane(inf.w, lanes, tm.trunc(i, k), k) for i in idx])


@reg("llvm.x86.avx512.pmultishift.qb")
def _multishift(cx, inf, ctrl, data):
    out = []
    for q in range(0, len(ctrl), 8):
        d = tm.concat([(8, x) for x in reversed(data[q:q + 8])])
        dd = tm.concat(((64, d), (64, d)))
        for i in range(8):
            c = cx.concretize(ctrl[q + i]) & 63
            out.append(tm.ext(dd, c + 7, c))
    return tuple(out)


@reg("llvm.x86.sse3.ldu.dq", "llvm.x86.avx.ldu.dq.256")
def _lddqu(cx, inf, p):
    return cx.loadv(p, inf.n, 1)


def _pack(f, w):
    def g(cx, inf, a, b):
        out = []
        n = 128 // w
        for k in range(0, len(a), n):
            out += [f(w // 2, x, w) for x in a[k:k + n]]
            out += [f(w // 2, x, w) for x in b[k:k + n]]
        return tuple(out)
    return g


TABLE["llvm.x86.sse2.packuswb.128"] = TABLE["llvm.x86.avx2.packuswb"] = _pack(usat_from_signed, 16)
TABLE["llvm.x86.sse2.packsswb.128"] = TABLE["llvm.x86.avx2.packsswb"] = _pack(ssat, 16)
TABLE["llvm.x86.sse2.packssdw.128"] = TABLE["llvm.x86.avx2.packssdw"] = _pack(ssat, 32)
TABLE["llvm.x86.sse41.packusdw"] = TABLE["llvm.x86.avx2.packusdw"] = _pack(usat_from_signed, 32)


@reg("llvm.x86.sse2.pause", "llvm.x86.avx.vzeroupper", "llvm.x86.avx.vzeroall")
def _nop(cx, inf, *a):
    return None


@reg("llvm.x86.xgetbv")
def _xgetbv(cx, inf, idx):
    h = cx.hooks.get("xgetbv")
    if h is None:
        raise Unsupported("xgetbv")
    return h(cx, idx)


# ------------------------------------------------------------ AArch64 / ARM

def tbl_lookup(lut, idx, default):
    n = len(lut)
    if type(idx) is int:
        return lut[idx] if idx < n else default
    if all(type(x) is int for x in lut):
        if type(default) is int:
            return tm.tbl(8, tuple([lut[i] if i < n else default for i in range(256)]), idx)
        v = tm.tbl(8, tuple([lut[i] if i < n else 0 for i in range(256)]), idx)
        return tm.ite(8, tm.ult(8, idx, n), v, default)
    r = default
    for i in range(n):
        r = tm.ite(8, tm.eq(8, idx, i), lut[i], r)
    return r


def _tbl(k, ext):
    def g(cx, inf, *a):
        if ext:
            dflt, a = a[0], a[1:]
        lut = ()
        for x in a[:k]:
            lut += tuple(x)
        idx = a[k]
        return tuple([tbl_lookup(lut, i, dflt[j] if ext else 0) for j, i in enumerate(idx)])
    return g


for _k in (1, 2, 3, 4):
    TABLE["llvm.aarch64.neon.tbl%d" % _k] = _tbl(_k, False)
    TABLE["llvm.aarch64.neon.tbx%d" % _k] = _tbl(_k, True)
    TABLE["llvm.arm.neon.vtbl%d" % _k] = _tbl(_k, False)
    TABLE["llvm.arm.neon.vtbx%d" % _k] = _tbl(_k, True)


def deinterleave(cx, p, k, n, eb):
    v = cx.loadv(p, n * k, eb)
    return tuple([tuple(v[i::k]) for i in range(k)])


def interleave(cx, p, vs, eb):
    out = []
    for t in zip(*vs):
        out.extend(t)
    cx.storev(p, tuple(out), eb)


def _ldk(k):
    def g(cx, inf, p, *rest):
        t = inf.mod.res(inf.ret[1][0])
        return deinterleave(cx, p, k, t[1], width(inf.mod, inf.prog, t) // 8)
    return g


def _stk64(k):
    def g(cx, inf, *a):
        t = inf.mod.res(inf.args[0])
        interleave(cx, a[k], a[:k], width(inf.mod, inf.prog, t) // 8)
    return g


def _stk32(k):
    def g(cx, inf, p, *a):
        t = inf.mod.res(inf.args[1])
        interleave(cx, p, a[:k], width(inf.mod, inf.prog, t) // 8)
    return g


for _k in (2, 3, 4):
    TABLE["llvm.aarch64.neon.ld%d" % _k] = _ldk(_k)
    TABLE["llvm.aarch64.neon.st%d" % _k] = _stk64(_k)
    TABLE["llvm.arm.neon.vld%d" % _k] = _ldk(_k)
    TABLE["llvm.arm.neon.vst%d" % _k] = _stk32(_k)


def _ld1x(k):
    def g(cx, inf, p, *rest):
        t = inf.mod.res(inf.ret[1][0])
        eb = width(inf.mod, inf.prog, t) // 8
        v = cx.loadv(p, t[1] * k, eb)
        return tuple([v[i * t[1]:(i + 1) * t[1]] for i in range(k)])
    return g


for _k in (2, 3, 4):
    TABLE["llvm.aarch64.neon.ld1x%d" % _k] = _ld1x(_k)
    TABLE["llvm.arm.neon.vld1x%d" % _k] = _ld1x(_k)


@reg("llvm.arm.neon.vld1")
def _vld1(cx, inf, p, al):
    return cx.loadv(p, inf.n, inf.w // 8)


@reg("llvm.arm.neon.vst1")
def _vst1(cx, inf, p, v, al):
    t = inf.mod.res(inf.args[1])
    cx.storev(p, v, width(inf.mod, inf.prog, t) // 8)


def _across(f, signed):
    def g(cx, inf, a):
        t = inf.mod.res(inf.args[0])
        w = width(inf.mod, inf.prog, t)
        r = a[0]
        for x in a[1:]:
            r = f(w, r, x)
        return (tm.sext if signed else tm.zext)(r, w, inf.w)
    return g


TABLE["llvm.aarch64.neon.umaxv"] = _across(umax, False)
TABLE["llvm.aarch64.neon.uminv"] = _across(umin, False)
TABLE["llvm.aarch64.neon.smaxv"] = _across(smax, True)
TABLE["llvm.aarch64.neon.sminv"] = _across(smin, True)
TABLE["llvm.aarch64.neon.uaddv"] = _across(tm.add, False)
TABLE["llvm.aarch64.neon.uqsub"] = map2(usubsat)
TABLE["llvm.aarch64.neon.uqadd"] = map2(uaddsat)
TABLE["llvm.aarch64.neon.sqsub"] = map2(ssubsat)
TABLE["llvm.aarch64.neon.sqadd"] = map2(saddsat)
TABLE["llvm.aarch64.neon.umax"] = map2(umax)
TABLE["llvm.aarch64.neon.umin"] = map2(umin)
TABLE["llvm.arm.neon.vqsubu"] = map2(usubsat)
TABLE["llvm.arm.neon.vmaxu"] = map2(umax)
TABLE["llvm.arm.neon.vminu"] = map2(umin)


def _pairwise(f):
    def g(cx, inf, a, b):
        v = tuple(a) + tuple(b)
        return tuple([f(inf.w, v[i], v[i + 1]) for i in range(0, len(v), 2)])
    return g


TABLE["llvm.aarch64.neon.addp"] = _pairwise(tm.add)
TABLE["llvm.aarch64.neon.umaxp"] = _pairwise(umax)
TABLE["llvm.aarch64.neon.uminp"] = _pairwise(umin)
TABLE["llvm.arm.neon.vpadd"] = _pairwise(tm.add)
TABLE["llvm.arm.neon.vpmaxu"] = _pairwise(umax)
TABLE["llvm.arm.neon.vpminu"] = _pairwise(umin)


def usat(w, x, xw):
    m = (1 << w) - 1
    return tm.ite(w, tm.ult(xw, m, x), m, tm.trunc(x, w))


def _narrow(f):
    def g(cx, inf, a):
        xw = width(inf.mod, inf.prog, inf.args[0])
        return tuple([f(inf.w, x, xw) for x in a])
    return g


TABLE["llvm.arm.neon.vqmovnu"] = TABLE["llvm.aarch64.neon.uqxtn"] = _narrow(usat)
TABLE["llvm.arm.neon.vqmovns"] = TABLE["llvm.aarch64.neon.sqxtn"] = _narrow(ssat)
TABLE["llvm.arm.neon.vqmovnsu"] = TABLE["llvm.aarch64.neon.sqxtun"] = _narrow(usat_from_signed)


def sli(w, d, s, n):
    if n == 0:
        return s
    return tm.concat(((w - n, tm.ext(s, w - n - 1, 0)), (n, tm.ext(d, n - 1, 0))))


def sri(w, d, s, n):
    if n >= w:
        return d
    return tm.concat(((n, tm.ext(d, w - 1, w - n)), (w - n, tm.ext(s, w - 1, n))))


@reg("llvm.aarch64.neon.vsli")
def _vsli(cx, inf, d, s, n):
    n = cx.concretize(n)
    return tuple([sli(inf.w, x, y, n) for x, y in zip(d, s)])


@reg("llvm.aarch64.neon.vsri")
def _vsri(cx, inf, d, s, n):
    n = cx.concretize(n)
    return tuple([sri(inf.w, x, y, n) for x, y in zip(d, s)])


@reg("llvm.arm.neon.vshiftins")
def _vshiftins(cx, inf, d, s, n):
    out = []
    w = inf.w
    for x, y, k in zip(d, s, n):
        k = cx.concretize(k)
        if k >> (w - 1):
            out.append(sri(w, x, y, (1 << w) - k))
        else:
            out.append(sli(w, x, y, k))
    return tuple(out)


def _ushl(signed):
    def g(cx, inf, a, c):
        w = inf.w
        out = []
        for x, k in zip(a, c):
            k = cx.concretize(k) & 255
            if k >= 128:
                out.append((tm.ashr if signed else tm.lshr)(w, x, 256 - k))
            else:
                out.append(tm.shl(w, x, k))
        return tuple(out)
    return g


TABLE["llvm.aarch64.neon.ushl"] = TABLE["llvm.arm.neon.vshiftu"] = _ushl(False)
TABLE["llvm.aarch64.neon.sshl"] = TABLE["llvm.arm.neon.vshifts"] = _ushl(True)
