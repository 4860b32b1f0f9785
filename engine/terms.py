"""Hash-consed bit-vector terms with light algebraic simplification.

A value is either a Python int (a constant, always masked to its width) or a T
(symbolic term).  Widths are passed explicitly because ints do not carry one.
Bit-vectors of width 1 double as booleans.
"""

_tab = {}
VARS = []            # all variables, indexed by variable number


class T:
    __slots__ = ("op", "w", "a", "vs", "n")

    def __repr__(self):
        return show(self)


_cnt = 0


def mk(op, w, a, vs):
    global _cnt
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.vs = vs
        _cnt += 1
        t.n = _cnt
        _tab[k] = t
    return t


def var(name, w):
    k = ("var", w, (name,))
    t = _tab.get(k)
    if t is None:
        t = mk("var", w, (name,), 1 << len(VARS))
        VARS.append(t)
    return t


_fresh = 0


def fresh(prefix, w):
    global _fresh
    _fresh += 1
    return var("%s!%d" % (prefix, _fresh), w)


def vs_of(x):
    return 0 if type(x) is int else x.vs


def vars_in(mask):
    out = []
    i = 0
    while mask:
        low = mask & -mask
        i = low.bit_length() - 1
        out.append(VARS[i])
        mask ^= low
    return out


# ---------------------------------------------------------------- tabulated functions
#
# A term that depends on one small variable only (a symbolic length with a few
# bits) can be kept as the table of its values: fn(values, x).  Operations on
# such terms and constants stay tables, so address arithmetic with divisions
# never reaches the solver as 64-bit circuits.  The kind is contagious only
# among terms over the same variable and is introduced by tabulated().

_FN = False


def tabulated(w, vals, x):
    """the term vals[x] of width w for a variable x; len(vals) == 2**x.w"""
    global _FN
    vals = tuple(vals)
    assert len(vals) == 1 << x.w and x.op == "var"
    _FN = True
    return _mkfn(w, vals, x)


def _mkfn(w, vals, x):
    v = vals[0]
    if vals.count(v) == len(vals):
        return v
    return mk("fn", w, (vals, x), x.vs)


def _fold(w, f, kids):
    """f applied pointwise if all kids are constants or tables over one variable, else None"""
    x = None
    for k in kids:
        if type(k) is not int:
            if k.op != "fn":
                return None
            if x is None:
                x = k.a[1]
            elif k.a[1] is not x:
                return None
    if x is None:
        return None
    cols = [(k,) * (1 << x.w) if type(k) is int else k.a[0] for k in kids]
    return _mkfn(w, tuple([f(*c) for c in zip(*cols)]), x)


# ---------------------------------------------------------------- structure

def pieces(w, x):
    """x as list of (width, value), most significant first."""
    if type(x) is not int and x.op == "concat":
        return x.a
    return ((w, x),)


def _join(ps, vals):
    r = 0
    for (w, _), v in zip(ps, vals):
        r = (r << w) | v
    return r


def concat(ps):
    """ps: iterable of (width, value), MSB first."""
    if _FN:
        ps = list(ps)
        r = _fold(sum([p[0] for p in ps]), lambda *v: _join(ps, v), [p[1] for p in ps])
        if r is not None:
            return r
    out = []
    for w, v in ps:
        if w == 0:
            continue
        if type(v) is not int and v.op == "concat":
            sub = v.a
        else:
            sub = ((w, v),)
        for w2, v2 in sub:
            if out:
                pw, pv = out[-1]
                if type(pv) is int:
                    if type(v2) is int:
                        out[-1] = (pw + w2, (pv << w2) | v2)
                        continue
                elif type(v2) is not int:
                    # merge adjacent extracts of the same term
                    if pv.op == "ext":
                        base, hi, lo = pv.a
                    else:
                        base, hi, lo = pv, pw - 1, 0
                    if v2.op == "ext":
                        b2, h2, l2 = v2.a
                    else:
                        b2, h2, l2 = v2, w2 - 1, 0
                    if base is b2 and lo == h2 + 1:
                        out[-1] = (pw + w2, _rawext(base, hi, l2))
                        continue
            out.append((w2, v2))
    if len(out) == 1:
        return out[0][1]
    if not out:
        return 0
    tot = 0
    vs = 0
    for w, v in out:
        tot += w
        if type(v) is not int:
            vs |= v.vs
    return mk("concat", tot, tuple(out), vs)


def _rawext(base, hi, lo):
    if lo == 0 and hi == base.w - 1:
        return base
    return mk("ext", hi - lo + 1, (base, hi, lo), base.vs)


def ext(x, hi, lo):
    w = hi - lo + 1
    if type(x) is int:
        return (x >> lo) & ((1 << w) - 1)
    if w == x.w:
        return x
    op = x.op
    if op == "fn":
        m = (1 << w) - 1
        return _mkfn(w, tuple([(e >> lo) & m for e in x.a[0]]), x.a[1])
    if op == "var":
        return mk("ext", w, (x, hi, lo), x.vs)
    if op == "ext":
        b, h, l = x.a
        return ext(b, l + hi, l + lo)
    if op == "concat":
        res = []
        pos = x.w
        for pw, pv in x.a:
            top = pos - 1
            pos -= pw
            if top < lo:
                break
            if pos > hi:
                continue
            h = min(top, hi) - pos
            l = max(pos, lo) - pos
            res.append((h - l + 1, ext(pv, h, l)))
        return concat(res)
    if op == "and" or op == "or" or op == "xor":
        f = _BIT[op]
        a = x.a
        r = ext(a[0], hi, lo)
        for y in a[1:]:
            r = f(w, r, ext(y, hi, lo))
        return r
    if op == "ite":
        c, p, q = x.a
        return ite(w, c, ext(p, hi, lo), ext(q, hi, lo))
    if op == "tbl":
        tab, idx = x.a
        k = (id(tab), lo, w)
        c = _extcache.get(k)
        if c is None:
            m = (1 << w) - 1
            nt = tuple([(e >> lo) & m for e in tab])
            keep, t = _reduce(nt)
            c = (tab, keep, t, len(tab).bit_length() - 1)
            _extcache[k] = c
        _, keep, t, n = c
        if not keep:
            return t[0]
        if len(keep) < n:
            idx = _pick(idx, keep)
        return tbl(w, t, idx)
    if op == "sext":
        y = x.a[0]
        if hi < y.w:
            return ext(y, hi, lo)
        if lo >= y.w - 1:
            return _sext(ext(y, y.w - 1, y.w - 1), 1, w)
        return mk("ext", w, (x, hi, lo), x.vs)
    if lo == 0 and op in ("add", "sub", "mul"):
        p, q = x.a
        return _ARI[op](w, ext(p, hi, 0), ext(q, hi, 0))
    return mk("ext", w, (x, hi, lo), x.vs)


def zext(x, fw, tw):
    if type(x) is int or fw == tw:
        return x
    return concat(((tw - fw, 0), (fw, x)))


def _sext(x, fw, tw):
    if fw == tw:
        return x
    if type(x) is int:
        if x >> (fw - 1):
            x |= ((1 << tw) - 1) ^ ((1 << fw) - 1)
        return x
    if x.op == "fn":
        return _mkfn(tw, tuple([_sext(e, fw, tw) for e in x.a[0]]), x.a[1])
    if x.op == "concat" and type(x.a[0][1]) is int:
        pw, pv = x.a[0]
        if pv >> (pw - 1) == 0:
            return zext(x, fw, tw)
        return concat((((tw - fw), (1 << (tw - fw)) - 1), (fw, x)))
    if x.op == "sext":
        return _sext(x.a[0], x.a[0].w, tw)
    return mk("sext", tw, (x,), x.vs)


sext = _sext


def trunc(x, tw):
    if type(x) is int:
        return x & ((1 << tw) - 1)
    return ext(x, tw - 1, 0)


# ---------------------------------------------------------------- bitwise

def _segment(w, a, b, f):
    """Apply bitwise f piecewise over the union of the piece boundaries."""
    cuts = {0, w}
    for x in (a, b):
        if type(x) is int:
            # boundaries of runs in the constant
            y = x
            edge = (y ^ (y << 1)) & ((1 << w) - 1)
            while edge:
                low = edge & -edge
                cuts.add(low.bit_length() - 1)
                edge ^= low
        elif x.op == "concat":
            pos = w
            for pw, _ in x.a:
                pos -= pw
                cuts.add(pos)
    cs = sorted(cuts, reverse=True)
    out = []
    for i in range(len(cs) - 1):
        hi, lo = cs[i] - 1, cs[i + 1]
        out.append((hi - lo + 1, f(hi - lo + 1, ext(a, hi, lo), ext(b, hi, lo))))
    return concat(out)


def _runs(w, c):
    return bin(c ^ (c << 1)).count("1")


def band(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: band(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0:
            return 0
        if b == m:
            return a
        return _segment(w, a, b, band)
    if a is b:
        return a
    if w == 1:
        return _nary("and", a, b)
    if a.op == "concat" or b.op == "concat":
        return _segment(w, a, b, band)
    if a.n > b.n:
        a, b = b, a
    return mk("and", w, (a, b), a.vs | b.vs)


def bor(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: bor(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0:
            return a
        if b == m:
            return m
        return _segment(w, a, b, bor)
    if a is b:
        return a
    if w == 1:
        return _nary("or", a, b)
    if a.op == "concat" or b.op == "concat":
        return _segment(w, a, b, bor)
    if a.n > b.n:
        a, b = b, a
    return mk("or", w, (a, b), a.vs | b.vs)


def _nary(op, a, b):
    """n-ary flattened and/or on width 1; dual pair -> constant."""
    xs = {}
    for x in (a, b):
        if x.op == op:
            for y in x.a:
                xs[y.n] = y
        else:
            xs[x.n] = x
    for y in list(xs.values()):
        if y.op == "not" and y.a[0].n in xs:
            return 0 if op == "and" else 1
    if len(xs) == 1:
        return next(iter(xs.values()))
    args = tuple(xs[k] for k in sorted(xs))
    vs = 0
    for y in args:
        vs |= y.vs
    return mk(op, 1, args, vs)


def bxor(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: bxor(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return bnot1(a)
        if a.op == "concat" or 0 < b < (1 << w) - 1:
            return _segment(w, a, b, bxor)
        # xor with all ones
        if a.op == "inv":
            return a.a[0]
        if a.op == "tbl":
            return tbl(w, tuple([e ^ b for e in a.a[0]]), a.a[1])
        return mk("inv", w, (a,), a.vs)
    if a is b:
        return 0
    if w == 1:
        if a.op == "not":
            return bnot1(bxor(1, a.a[0], b))
        if b.op == "not":
            return bnot1(bxor(1, a, b.a[0]))
    if a.op == "concat" or b.op == "concat":
        return _segment(w, a, b, bxor)
    if a.n > b.n:
        a, b = b, a
    return mk("xor", w, (a, b), a.vs | b.vs)


def bnot1(a):
    if type(a) is int:
        return a ^ 1
    if a.op == "not":
        return a.a[0]
    if a.op == "fn":
        return _mkfn(1, tuple([e ^ 1 for e in a.a[0]]), a.a[1])
    if a.op == "tbl":
        return tbl(1, tuple([e ^ 1 for e in a.a[0]]), a.a[1])
    return mk("not", 1, (a,), a.vs)


def bnot(w, a):
    return bxor(w, a, (1 << w) - 1)


_BIT = {"and": band, "or": bor, "xor": bxor}


def concrete_shift(w, x, n):
    """left shift by constant n (0 <= n < w)"""
    if n == 0:
        return x
    return concat(((w - n, ext(x, w - n - 1, 0)), (n, 0)))


def shl(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: shl(w, p, q), (a, b))
        if r is not None:
            return r
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        return concrete_shift(w, a, b)
    return mk("shl", w, (a, b), vs_of(a) | b.vs)


def lshr(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: lshr(w, p, q), (a, b))
        if r is not None:
            return r
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return concat(((b, 0), (w - b, ext(a, w - 1, b))))
    return mk("lshr", w, (a, b), vs_of(a) | b.vs)


def ashr(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: ashr(w, p, q), (a, b))
        if r is not None:
            return r
    if type(b) is int:
        if b >= w:
            b = w - 1
        if type(a) is int:
            if a >> (w - 1):
                a -= 1 << w
            return (a >> b) & ((1 << w) - 1)
        if b == 0:
            return a
        return _sext(ext(a, w - 1, b), w - b, w)
    return mk("ashr", w, (a, b), vs_of(a) | b.vs)


# ---------------------------------------------------------------- arithmetic

def _low_zero_bits(w, x):
    if type(x) is int:
        return w if x == 0 else (x & -x).bit_length() - 1
    if x.op == "concat":
        pw, pv = x.a[-1]
        if type(pv) is int:
            return pw if pv == 0 else (pv & -pv).bit_length() - 1
    return 0


def hi_zeros(w, x):
    """number of leading bits known to be zero"""
    if type(x) is int:
        return w - x.bit_length()
    if x.op == "concat":
        pw, pv = x.a[0]
        if type(pv) is int:
            if pv == 0:
                return pw
            return pw - pv.bit_length()
    return 0


def add(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: add(w, p, q), (a, b))
        if r is not None:
            return r
    m = (1 << w) - 1
    if type(a) is int:
        if type(b) is int:
            return (a + b) & m
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if a.op == "add" and type(a.a[1]) is int:
            return add(w, a.a[0], (a.a[1] + b) & m)
        if a.op == "tbl":
            return tbl(w, tuple([(e + b) & m for e in a.a[0]]), a.a[1])
        # low bits below the lowest set bit of b are untouched
        lz = (b & -b).bit_length() - 1
        if a.op == "concat":
            pw, pv = a.a[-1]
            # constant fits in the (zero) low piece: no carry
            if type(pv) is int and pv + b < (1 << pw):
                return concat(a.a[:-1] + ((pw, pv + b),))
        if lz and lz < w and a.op == "concat":
            return concat(((w - lz, add(w - lz, ext(a, w - 1, lz), b >> lz)), (lz, ext(a, lz - 1, 0))))
        # disjoint bits: add == or
        if _disjoint(w, a, b):
            return bor(w, a, b)
        return mk("add", w, (a, b), a.vs)
    if a.op == "add" and type(a.a[1]) is int:
        return add(w, add(w, a.a[0], b), a.a[1])
    if b.op == "add" and type(b.a[1]) is int:
        return add(w, add(w, a, b.a[0]), b.a[1])
    if a.op == "sub" and a.a[1] is b:
        return a.a[0]
    if b.op == "sub" and b.a[1] is a:
        return b.a[0]
    if (a.op == "concat" or b.op == "concat") and _disjoint(w, a, b):
        return bor(w, a, b)
    if a.n > b.n:
        a, b = b, a
    return mk("add", w, (a, b), a.vs | b.vs)


def _disjoint(w, a, b):
    """no bit position can be non-zero in both"""
    za = _zero_mask(w, a)
    zb = _zero_mask(w, b)
    return (za | zb) == (1 << w) - 1


def _zero_mask(w, x):
    """bits known zero"""
    m = (1 << w) - 1
    if type(x) is int:
        return ~x & m
    if x.op == "concat":
        r = 0
        pos = w
        for pw, pv in x.a:
            pos -= pw
            if type(pv) is int:
                r |= (~pv & ((1 << pw) - 1)) << pos
        return r
    return 0


def sub(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: sub(w, p, q), (a, b))
        if r is not None:
            return r
    m = (1 << w) - 1
    if type(b) is int:
        if type(a) is int:
            return (a - b) & m
        return add(w, a, (-b) & m)
    if a is b:
        return 0
    if type(a) is not int:
        if a.op == "add":
            x, c = a.a
            if x is b:
                return c
            if c is b:
                return x
            if type(c) is int:
                return add(w, sub(w, x, b), c)
        if b.op == "add" and type(b.a[1]) is int:
            return add(w, sub(w, a, b.a[0]), (-b.a[1]) & m)
        return mk("sub", w, (a, b), a.vs | b.vs)
    if b.op == "add" and type(b.a[1]) is int:
        return sub(w, (a - b.a[1]) & m, b.a[0])
    if b.op == "sub" and type(b.a[0]) is int:
        # a - (c - y) = y + (a-c)
        return add(w, b.a[1], (a - b.a[0]) & m)
    return mk("sub", w, (a, b), b.vs)


def mul(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: mul(w, p, q), (a, b))
        if r is not None:
            return r
    m = (1 << w) - 1
    if type(a) is int:
        if type(b) is int:
            return (a * b) & m
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        if a.op == "tbl":
            return tbl(w, tuple([(e * b) & m for e in a.a[0]]), a.a[1])
        return mk("mul", w, (a, b), a.vs)
    if a.n > b.n:
        a, b = b, a
    return mk("mul", w, (a, b), a.vs | b.vs)


_ARI = {"add": add, "sub": sub, "mul": mul}


def udiv(w, a, b):
    if _FN and type(b) is int and b:
        r = _fold(w, lambda p: p // b, (a,))
        if r is not None:
            return r
    if type(b) is int:
        if b == 0:
            return fresh("div0", w)
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        z = hi_zeros(w, a)
        if z and b < (1 << (w - z)):
            return zext(udiv(w - z, ext(a, w - z - 1, 0), b), w - z, w)
    return mk("udiv", w, (a, b), vs_of(a) | vs_of(b))


def urem(w, a, b):
    if _FN and type(b) is int and b:
        r = _fold(w, lambda p: p % b, (a,))
        if r is not None:
            return r
    if type(b) is int:
        if b == 0:
            return fresh("div0", w)
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        z = hi_zeros(w, a)
        if z and b < (1 << (w - z)):
            return zext(urem(w - z, ext(a, w - z - 1, 0), b), w - z, w)
    return mk("urem", w, (a, b), vs_of(a) | vs_of(b))


def _s(w, x):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: sdiv(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int and type(b) is int:
        if b == 0:
            return fresh("div0", w)
        x, y = _s(w, a), _s(w, b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1)
    if hi_zeros(w, a) and hi_zeros(w, b):
        return udiv(w, a, b)
    return mk("sdiv", w, (a, b), vs_of(a) | vs_of(b))


def srem(w, a, b):
    if _FN:
        r = _fold(w, lambda p, q: srem(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int and type(b) is int:
        if b == 0:
            return fresh("div0", w)
        x, y = _s(w, a), _s(w, b)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & ((1 << w) - 1)
    if hi_zeros(w, a) and hi_zeros(w, b):
        return urem(w, a, b)
    return mk("srem", w, (a, b), vs_of(a) | vs_of(b))


# ---------------------------------------------------------------- relations

def eq(w, a, b):
    if _FN:
        r = _fold(1, lambda p, q: eq(w, p, q), (a, b))
        if r is not None:
            return r
    if a is b:
        return 1
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if w == 1:
        if type(b) is int:
            return a if b else bnot1(a)
        return bnot1(bxor(1, a, b))
    if type(b) is int:
        op = a.op
        if op == "concat":
            r = 1
            pos = w
            for pw, pv in a.a:
                pos -= pw
                c = (b >> pos) & ((1 << pw) - 1)
                e = eq(pw, pv, c)
                if type(e) is int and e == 0:
                    return 0
                r = band(1, r, e)
            return r
        if op == "tbl":
            return tbl(1, tuple([1 if e == b else 0 for e in a.a[0]]), a.a[1])
        if op == "add" and type(a.a[1]) is int:
            return eq(w, a.a[0], (b - a.a[1]) & ((1 << w) - 1))
        if op == "inv":
            return eq(w, a.a[0], b ^ ((1 << w) - 1))
        if op == "or" and b == 0:
            r = 1
            for y in a.a:
                r = band(1, r, eq(w, y, 0))
            return r
        if op == "and" and b == (1 << w) - 1:
            r = 1
            for y in a.a:
                r = band(1, r, eq(w, y, b))
            return r
        if op == "xor" and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == "sub" and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == "ite":
            c, p, q = a.a
            if b == 0 and c.op == "ult" and c.a == (q, p):
                # maximum
                return band(1, eq(w, p, 0), eq(w, q, 0))
            if type(p) is int or type(q) is int:
                return ite(1, c, eq(w, p, b), eq(w, q, b))
        if op == "sext":
            y = a.a[0]
            lowb = b & ((1 << y.w) - 1)
            if _sext(lowb, y.w, w) != b:
                return 0
            return eq(y.w, y, lowb)
        return mk("eq", 1, (a, b), a.vs)
    if a.op == "concat" and b.op == "concat":
        ca = []
        pos = w
        for pw, _ in a.a:
            pos -= pw
            ca.append(pos)
        cb = []
        pos = w
        for pw, _ in b.a:
            pos -= pw
            cb.append(pos)
        cuts = sorted(set(ca) & set(cb), reverse=True)
        if len(cuts) > 1:
            r = 1
            top = w
            for c in cuts:
                e = eq(top - c, ext(a, top - 1, c), ext(b, top - 1, c))
                if type(e) is int and e == 0:
                    return 0
                r = band(1, r, e)
                top = c
            return r
    if a.op == "add" and b.op == "add" and a.a[1] is b.a[1]:
        return eq(w, a.a[0], b.a[0])
    if a.op == "add" and type(a.a[1]) is int and a.a[0] is b:
        return 0 if a.a[1] else 1
    if b.op == "add" and type(b.a[1]) is int and b.a[0] is a:
        return 0 if b.a[1] else 1
    if a.n > b.n:
        a, b = b, a
    return mk("eq", 1, (a, b), a.vs | b.vs)


def ne(w, a, b):
    return bnot1(eq(w, a, b))


def ult(w, a, b):
    if _FN:
        r = _fold(1, lambda p, q: ult(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return eq(w, a, 0)
        if b == m:
            return bnot1(eq(w, a, m))
        if a.op == "tbl":
            return tbl(1, tuple([1 if e < b else 0 for e in a.a[0]]), a.a[1])
    elif type(a) is int:
        if a == m:
            return 0
        if a == 0:
            return bnot1(eq(w, b, 0))
        if b.op == "tbl":
            return tbl(1, tuple([1 if a < e else 0 for e in b.a[0]]), b.a[1])
        if a & (a + 1) == 0:
            k = a.bit_length()
            return bnot1(eq(w - k, ext(b, w - 1, k), 0))
    za, zb = hi_zeros(w, a), hi_zeros(w, b)
    z = min(za, zb)
    if z:
        if z >= w:
            z = w - 1
        return ult(w - z, ext(a, w - z - 1, 0), ext(b, w - z - 1, 0))
    if type(b) is int and za and b >> (w - za):
        return 1
    if type(a) is int and zb and a >> (w - zb):
        return 0
    # equal low constant tail, e.g. both multiples of 4
    lz = min(_low_zero_bits(w, a), _low_zero_bits(w, b))
    if lz and lz < w:
        return ult(w - lz, ext(a, w - 1, lz), ext(b, w - 1, lz))
    # a < c where the low bits of a are all that c leaves free: top-part compare
    if type(b) is int:
        lz = (b & -b).bit_length() - 1
        if lz and lz < w:
            return ult(w - lz, ext(a, w - 1, lz), b >> lz)
    return mk("ult", 1, (a, b), vs_of(a) | vs_of(b))


def ule(w, a, b):
    return bnot1(ult(w, b, a))


def slt(w, a, b):
    if _FN:
        r = _fold(1, lambda p, q: slt(w, p, q), (a, b))
        if r is not None:
            return r
    if type(a) is int and type(b) is int:
        return 1 if _s(w, a) < _s(w, b) else 0
    if a is b:
        return 0
    if w > 1 and hi_zeros(w, a) and hi_zeros(w, b):
        return ult(w, a, b)
    if type(b) is int and b == 0:
        return ext(a, w - 1, w - 1)
    if type(a) is int and a == (1 << w) - 1:       # -1 < b
        return bnot1(ext(b, w - 1, w - 1))
    if type(b) is int and a.op == "tbl":
        return tbl(1, tuple([1 if _s(w, e) < _s(w, b) else 0 for e in a.a[0]]), a.a[1])
    if type(a) is int and b.op == "tbl":
        return tbl(1, tuple([1 if _s(w, a) < _s(w, e) else 0 for e in b.a[0]]), b.a[1])
    # narrower signed compare of two sign/zero extended values
    na, nb = _snarrow(w, a), _snarrow(w, b)
    n = max(na, nb)
    if n < w and (type(a) is int or type(b) is int or True):
        return slt(n, ext(a, n - 1, 0), ext(b, n - 1, 0))
    return mk("slt", 1, (a, b), vs_of(a) | vs_of(b))


def _snarrow(w, x):
    """least n such that x is the sign extension of its low n bits (syntactically)"""
    if type(x) is int:
        s = _s(w, x)
        return (s if s >= 0 else ~s).bit_length() + 1
    if x.op == "sext":
        return x.a[0].w
    z = hi_zeros(w, x)
    if z:
        return w - z + 1
    return w


def sle(w, a, b):
    return bnot1(slt(w, b, a))


def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if _FN:
        r = _fold(w, lambda o, p, q: p if o else q, (c, a, b))
        if r is not None:
            return r
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        return ite(w, c.a[0], b, a)
    if w == 1:
        if type(a) is int:
            return bor(1, c, b) if a else band(1, bnot1(c), b)
        if type(b) is int:
            return bor(1, bnot1(c), a) if b else band(1, c, a)
    else:
        # split constant / common pieces so that slices stay visible
        ca = type(a) is not int and a.op == "concat"
        cb = type(b) is not int and b.op == "concat"
        if ca or cb:
            cuts = {0, w}
            for x in (a, b):
                if type(x) is not int and x.op == "concat":
                    pos = w
                    for pw, _ in x.a:
                        pos -= pw
                        cuts.add(pos)
            cs = sorted(cuts, reverse=True)
            out = []
            for i in range(len(cs) - 1):
                hi, lo = cs[i] - 1, cs[i + 1]
                n = hi - lo + 1
                out.append((n, _ite0(n, c, ext(a, hi, lo), ext(b, hi, lo))))
            return concat(out)
    return _ite0(w, c, a, b)


def _ite0(w, c, a, b):
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if w == 1:
        if type(a) is int:
            return bor(1, c, b) if a else band(1, bnot1(c), b)
        if type(b) is int:
            return bor(1, bnot1(c), a) if b else band(1, c, a)
    if type(a) is not int and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if type(b) is not int and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if type(a) is int and type(b) is int and a == b:
        return a
    return mk("ite", w, (c, a, b), c.vs | vs_of(a) | vs_of(b))


# ---------------------------------------------------------------- tables

_reduced = {}


def _reduce(tab):
    """(kept bit positions LSB-based, reduced table)"""
    r = _reduced.get(tab)
    if r is not None:
        return r
    n = len(tab).bit_length() - 1
    keep = list(range(n))
    t = tab
    for bit in range(n - 1, -1, -1):
        k = keep.index(bit)          # position within t's index
        step = 1 << k
        same = True
        size = len(t)
        for base in range(0, size, step * 2):
            if t[base:base + step] != t[base + step:base + 2 * step]:
                same = False
                break
        if same:
            nt = []
            for base in range(0, size, step * 2):
                nt.extend(t[base:base + step])
            t = tuple(nt)
            keep.pop(k)
    r = (tuple(keep), t)
    if len(_reduced) > 20000:
        _reduced.clear()
    _reduced[tab] = r
    return r


_extcache = {}


def _pick(idx, keep):
    ps = []
    i = len(keep) - 1
    while i >= 0:
        j = i
        while j > 0 and keep[j - 1] == keep[j] - 1:
            j -= 1
        ps.append((i - j + 1, ext(idx, keep[i], keep[j])))
        i = j - 1
    return concat(ps)


def tbl(w, tab, idx):
    """table lookup; len(tab) is a power of two, idx has log2(len) bits"""
    n = len(tab).bit_length() - 1
    if type(idx) is int:
        return tab[idx]
    if idx.op == "fn":
        return _mkfn(w, tuple([tab[e] for e in idx.a[0]]), idx.a[1])
    if idx.op == "concat" and any(type(v) is int for _, v in idx.a):
        # specialise on the constant index bits
        pos = n
        free = []           # (bitpos, )
        base = 0
        for pw, pv in idx.a:
            pos -= pw
            if type(pv) is int:
                base |= pv << pos
            else:
                free.append((pos, pw, pv))
        bits = []
        for p, pw, _ in reversed(free):
            bits.extend(range(p, p + pw))
        nt = []
        for j in range(1 << len(bits)):
            i = base
            for k, bp in enumerate(bits):
                if (j >> k) & 1:
                    i |= 1 << bp
            nt.append(tab[i])
        return tbl(w, tuple(nt), concat([(pw, pv) for _, pw, pv in free]))
    keep, t = _reduce(tab)
    if not keep:
        return t[0]
    if len(keep) < n:
        return tbl(w, t, _pick(idx, keep))
    if idx.op == "fn":
        return _mkfn(w, tuple([tab[e] for e in idx.a[0]]), idx.a[1])
    if idx.op == "tbl":
        t2, i2 = idx.a
        return tbl(w, tuple([tab[e] for e in t2]), i2)
    if n == 1:
        return ite(w, idx, tab[1], tab[0])
    if w == n and tab == tuple(range(len(tab))):
        return idx
    return mk("tbl", w, (tab, idx), idx.vs)


# ---------------------------------------------------------------- evaluation

def evaluate(x, env, memo=None):
    """Concrete value of x; env maps variable term -> int (missing -> 0)."""
    if type(x) is int:
        return x
    if memo is None:
        memo = {}
    stack = [x]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        op = t.op
        if op == "var":
            memo[t] = env.get(t, 0)
            stack.pop()
            continue
        if op == "concat":
            kids = [v for _, v in t.a]
        elif op == "ext":
            kids = [t.a[0]]
        elif op == "tbl" or op == "fn":
            kids = [t.a[1]]
        else:
            kids = t.a
        pend = [k for k in kids if type(k) is not int and k not in memo]
        if pend:
            stack.extend(pend)
            continue
        v = [k if type(k) is int else memo[k] for k in kids]
        w = t.w
        m = (1 << w) - 1
        if op == "concat":
            r = 0
            for (pw, _), z in zip(t.a, v):
                r = (r << pw) | z
        elif op == "ext":
            r = (v[0] >> t.a[2]) & m
        elif op == "tbl" or op == "fn":
            r = t.a[0][v[0]]
        elif op == "and":
            r = m
            for z in v:
                r &= z
        elif op == "or":
            r = 0
            for z in v:
                r |= z
        elif op == "xor":
            r = v[0] ^ v[1]
        elif op == "not" or op == "inv":
            r = v[0] ^ m
        elif op == "add":
            r = (v[0] + v[1]) & m
        elif op == "sub":
            r = (v[0] - v[1]) & m
        elif op == "mul":
            r = (v[0] * v[1]) & m
        elif op == "eq":
            r = 1 if v[0] == v[1] else 0
        elif op == "ult":
            r = 1 if v[0] < v[1] else 0
        elif op == "slt":
            ww = width_of(t.a[0], t.a[1])
            r = 1 if _s(ww, v[0]) < _s(ww, v[1]) else 0
        elif op == "ite":
            r = v[1] if v[0] else v[2]
        elif op == "sext":
            r = _sext(v[0], t.a[0].w, w)
        elif op == "shl":
            r = (v[0] << v[1]) & m if v[1] < w else 0
        elif op == "lshr":
            r = v[0] >> v[1] if v[1] < w else 0
        elif op == "ashr":
            r = ashr(w, v[0], v[1])
        elif op == "udiv":
            r = v[0] // v[1] if v[1] else m
        elif op == "urem":
            r = v[0] % v[1] if v[1] else v[0]
        elif op == "sdiv":
            r = sdiv(w, v[0], v[1]) if v[1] else 0
        elif op == "srem":
            r = srem(w, v[0], v[1]) if v[1] else 0
        else:
            raise AssertionError(op)
        memo[t] = r
        stack.pop()
    return memo[x]


def width_of(a, b):
    return a.w if type(a) is not int else b.w


def show(t, d=0):
    if type(t) is int:
        return hex(t)
    if t.op == "var":
        return t.a[0]
    if d > 6:
        return "#%d" % t.n
    if t.op == "concat":
        return "{" + ",".join("%d:%s" % (w, show(v, d + 1)) for w, v in t.a) + "}"
    if t.op == "ext":
        return "%s[%d:%d]" % (show(t.a[0], d + 1), t.a[1], t.a[2])
    if t.op == "tbl" or t.op == "fn":
        return "T%d@%x(%s)" % (len(t.a[0]), hash(t.a[0]) & 0xffff, show(t.a[1], d + 1))
    return "%s(%s)" % (t.op, ",".join(show(x, d + 1) for x in t.a))


def reset():
    """forget every term (only between explorations)"""
    global _FN
    _FN = False
    _tab.clear()
    _reduced.clear()
    _extcache.clear()
    del VARS[:]


def big():
    return len(_tab) > 2500000 or len(VARS) > 30000
