"""Second solver back end: bit-vector terms as unbounded integers with explicit wrap-around (for address arithmetic with
division, where bit-blasting is hopeless).  An interval is computed along with every term, so that the wrap-around is
only spelled out where it can happen."""

import time
import cvc5.pythonic as cvc
import z3
from . import solver as sv
from . import terms as tm

PLANS = {              # address width -> (solver, milliseconds) in the order they are tried
    64: ((z3, 300), (cvc, 2000), (z3, 5000), (cvc, 15000), (z3, 30000)),
    32: ((cvc, 600), (z3, 5000), (cvc, 15000), (z3, 30000)),
}
LIMITS = {}            # variable -> (lowest, highest): known on every path, part of every query
_cache = {}


def limit(var, lo, hi):
    LIMITS[var] = (lo, hi)


def _int(order, Z):
    e = {}
    rng = {}
    side = []
    vs = []

    def g(x):
        return x if type(x) is int else e[x]

    def iv(x):
        return (x, x) if type(x) is int else rng[x]

    def mod(r, lo, hi, w):
        """r, known to lie in lo..hi, reduced to w bits"""
        m = 1 << w
        if 0 <= lo and hi < m:
            return r, (lo, hi)
        if lo >= -m and hi < m and lo < 0:
            return Z.If(r < 0, r + m, r), (0, m - 1)
        if lo >= 0 and hi < 2 * m:
            return Z.If(r >= m, r - m, r), (0, m - 1)
        return r % m, (0, m - 1)

    def signed(x, w):
        lo, hi = iv(x)
        v = g(x)
        h = 1 << (w - 1)
        if hi < h:
            return v, (lo, hi)
        if lo >= h:
            return v - 2 * h, (lo - 2 * h, hi - 2 * h)
        return Z.If(v >= h, v - 2 * h, v), (-h, h - 1)

    def width(t):
        return max([k.w for k in t.a if type(k) is not int] or [64])

    def tdiv(a, b):
        """division towards zero"""
        q = Z.If(a >= 0, a, -a) / Z.If(b >= 0, b, -b) if type(b) is not int else Z.If(a >= 0, a, -a) / abs(b)
        return Z.If((a >= 0) == (b >= 0), q, -q)

    def divmod_(x, lo, hi, k):
        """quotient and remainder of x in lo..hi by the constant k > 0, as fresh variables tied by a linear equation"""
        if type(x) is int:
            return x // k, x % k
        n = len(side)
        q, r = Z.Int("q%d" % n), Z.Int("r%d" % n)
        side.extend([x == q * k + r, r >= 0, r < k, q >= lo // k, q <= hi // k])
        return q, r

    for t in order:
        op, w = t.op, t.w
        full = (0, (1 << w) - 1)
        if op == "var":
            r = Z.Int("x%d" % len(vs))
            vs.append(t)
            b = LIMITS.get(t, full)
            side += [r >= b[0], r <= b[1]]
            R = b
        elif op == "concat":
            r = lo = hi = 0
            for pw, v in t.a:
                a, b = iv(v)
                r = r * (1 << pw) + g(v)
                lo = (lo << pw) + a
                hi = (hi << pw) + b
            R = (lo, hi)
        elif op == "ext":
            x, h, l = t.a
            lo, hi = iv(x)
            r = e[x]
            if l:
                r = divmod_(r, lo, hi, 1 << l)[0]
                lo, hi = lo >> l, hi >> l
            if hi >> (h - l + 1):
                r = divmod_(r, lo, hi, 1 << (h - l + 1))[1]
                lo, hi = full
            R = (lo, hi)
        elif op == "add":
            a, b = iv(t.a[0]), iv(t.a[1])
            k = t.a[1]
            if type(k) is int and k >> (w - 1) and a[0] + k >= 1 << w:
                k -= 1 << w
                r, R = mod(g(t.a[0]) + k, a[0] + k, a[1] + k, w)
            elif type(k) is int and k >> (w - 1):
                k -= 1 << w
                r, R = mod(g(t.a[0]) + k, a[0] + k, a[1] + k, w)
            else:
                r, R = mod(g(t.a[0]) + g(t.a[1]), a[0] + b[0], a[1] + b[1], w)
        elif op == "sub":
            a, b = iv(t.a[0]), iv(t.a[1])
            r, R = mod(g(t.a[0]) - g(t.a[1]), a[0] - b[1], a[1] - b[0], w)
        elif op == "mul":
            a, b = iv(t.a[0]), iv(t.a[1])
            k = t.a[1]
            if type(k) is int and k >> (w - 1) and w > 1:
                k -= 1 << w
                r, R = mod(g(t.a[0]) * k, a[1] * k, a[0] * k, w)
            else:
                r, R = mod(g(t.a[0]) * g(t.a[1]), a[0] * b[0], a[1] * b[1], w)
        elif op == "shl" and type(t.a[1]) is int:
            a = iv(t.a[0])
            k = 1 << t.a[1]
            r, R = mod(g(t.a[0]) * k, a[0] * k, a[1] * k, w)
        elif op == "lshr" and type(t.a[1]) is int:
            a = iv(t.a[0])
            r, R = divmod_(g(t.a[0]), a[0], a[1], 1 << t.a[1])[0], (a[0] >> t.a[1], a[1] >> t.a[1])
        elif op == "udiv" and type(t.a[1]) is int and t.a[1]:
            a = iv(t.a[0])
            r, R = divmod_(g(t.a[0]), a[0], a[1], t.a[1])[0], (a[0] // t.a[1], a[1] // t.a[1])
        elif op == "urem" and type(t.a[1]) is int and t.a[1]:
            a = iv(t.a[0])
            r, R = divmod_(g(t.a[0]), a[0], a[1], t.a[1])[1], (0, t.a[1] - 1)
        elif op == "udiv":
            r, R = g(t.a[0]) / g(t.a[1]), full
        elif op == "urem":
            r, R = g(t.a[0]) % g(t.a[1]), full
        elif op == "sdiv":
            r, R = tdiv(signed(t.a[0], w)[0], signed(t.a[1], w)[0]) % (1 << w), full
        elif op == "srem":
            a, b = signed(t.a[0], w)[0], signed(t.a[1], w)[0]
            r, R = (a - b * tdiv(a, b)) % (1 << w), full
        elif op == "sext":
            v, (lo, hi) = signed(t.a[0], t.a[0].w)
            r, R = mod(v, lo, hi, w)
        elif op in ("not", "inv"):
            a = iv(t.a[0])
            m = (1 << w) - 1
            r, R = m - e[t.a[0]], (m - a[1], m - a[0])
        elif op == "eq":
            r, R = Z.If(g(t.a[0]) == g(t.a[1]), 1, 0), (0, 1)
        elif op == "ult":
            r, R = Z.If(g(t.a[0]) < g(t.a[1]), 1, 0), (0, 1)
        elif op == "slt":
            k = width(t)
            r, R = Z.If(signed(t.a[0], k)[0] < signed(t.a[1], k)[0], 1, 0), (0, 1)
        elif op == "ite":
            a, b = iv(t.a[1]), iv(t.a[2])
            r, R = Z.If(g(t.a[0]) == 1, g(t.a[1]), g(t.a[2])), (min(a[0], b[0]), max(a[1], b[1]))
        elif op in ("and", "or") and w == 1:
            c = [g(k) == 1 for k in t.a]
            r, R = Z.If(Z.And(*c) if op == "and" else Z.Or(*c), 1, 0), (0, 1)
        elif op == "xor" and w == 1:
            r, R = Z.If(g(t.a[0]) == g(t.a[1]), 0, 1), (0, 1)
        else:
            raise sv.Unknown("no integer form for %s/%d" % (op, w))
        e[t] = r
        rng[t] = R
    return e, side, vs


def check(conds):
    """like solver.check: model dict or None"""
    S = sv.STATS
    S.queries += 1
    ck = tuple(conds)
    r = _exact.get(ck, 0)
    if r != 0:
        S.cache += 1
        return None if r is None else dict(r)
    r = _check(conds, S)
    if len(_exact) > 100000:
        _exact.clear()
    _exact[ck] = r
    return None if r is None else dict(r)


_exact = {}


_plan = 64


def reset(width):
    """terms or limits have changed; width of addresses"""
    global _plan
    _plan = width
    _exact.clear()
    LIMITS.clear()


def _solve(conds, order, Z, ms, S):
    """(values of the variables,), (None,) if there are none, or None if the solver gives up"""
    e, side, vs = _int(order, Z)
    s = Z.Solver()
    if Z is z3:
        s.set("timeout", ms)
    else:
        s.setOption("tlimit-per", str(ms))
    s.add(*side)
    for c in conds:
        s.add(e[c] == 1 if type(c) is not int else Z.BoolVal(bool(c)))
    t0 = time.time()
    r = s.check()
    S.time += time.time() - t0
    S.solved += 1
    if r == Z.unsat:
        S.unsat += 1
        return (None,)
    if r != Z.sat:
        return None
    S.sat += 1
    m = s.model()
    return ([m[e[v]].as_long() if m[e[v]] is not None else LIMITS.get(v, (0, 0))[0] for v in vs],)


def _check(conds, S):
    key, vars_, order = sv.canon(conds)
    key = (key, tuple([LIMITS.get(v) for v in vars_])) if LIMITS else key
    hit = _cache.get(key)
    if hit is None:
        for Z, ms in PLANS[_plan]:
            hit = _solve(conds, order, Z, ms, S)
            if hit is not None:
                break
        if hit is None:
            S.unknown += 1
            raise sv.Unknown("integer query: no answer")
        _cache[key] = hit
    else:
        S.cache += 1
    if hit[0] is None:
        return None
    env = dict(zip(vars_, hit[0]))
    memo = {}
    for c in conds:
        if type(c) is not int and tm.evaluate(c, env, memo) != 1:
            raise AssertionError("integer model does not satisfy the term-level query")
    return env
