"""Second solver back end: bit-vector terms as unbounded integers with explicit wrap-around (for address arithmetic with
division, where bit-blasting is hopeless)."""

import time
import z3
from . import solver as sv
from . import terms as tm

TIMEOUT_MS = 60000
_cache = {}


def _int(order):
    e = {}
    side = []
    vs = []

    def g(x):
        return x if type(x) is int else e[x]

    def mod(x, w):
        return x % (1 << w)

    def signed(x, w):
        v = g(x)
        if type(v) is int:
            return v - (1 << w) if v >> (w - 1) else v
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)

    def width(t):
        return max([k.w for k in t.a if type(k) is not int] or [64])

    def tdiv(a, b):
        """division towards zero"""
        q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b) if type(b) is not int else z3.If(a >= 0, a, -a) / abs(b)
        return z3.If((a >= 0) == (b >= 0), q, -q)

    for t in order:
        op, w = t.op, t.w
        if op == "var":
            r = z3.Int("x%d" % len(vs))
            vs.append(t)
            side += [r >= 0, r < (1 << w)]
        elif op == "concat":
            r = 0
            for pw, v in t.a:
                r = r * (1 << pw) + g(v)
        elif op == "ext":
            x, hi, lo = t.a
            r = e[x]
            if lo:
                r = r / (1 << lo)
            if hi < x.w - 1:
                r = mod(r, hi - lo + 1)
        elif op == "add":
            r = mod(g(t.a[0]) + g(t.a[1]), w)
        elif op == "sub":
            r = mod(g(t.a[0]) - g(t.a[1]), w)
        elif op == "mul":
            r = mod(g(t.a[0]) * g(t.a[1]), w)
        elif op == "shl" and type(t.a[1]) is int:
            r = mod(g(t.a[0]) * (1 << t.a[1]), w)
        elif op == "lshr" and type(t.a[1]) is int:
            r = g(t.a[0]) / (1 << t.a[1])
        elif op == "udiv":
            r = g(t.a[0]) / g(t.a[1])
        elif op == "urem":
            r = g(t.a[0]) % g(t.a[1])
        elif op == "sdiv":
            r = mod(tdiv(signed(t.a[0], w), signed(t.a[1], w)), w)
        elif op == "srem":
            a, b = signed(t.a[0], w), signed(t.a[1], w)
            r = mod(a - b * tdiv(a, b), w)
        elif op == "sext":
            r = mod(signed(t.a[0], t.a[0].w), w)
        elif op in ("not", "inv"):
            r = (1 << w) - 1 - e[t.a[0]]
        elif op == "eq":
            r = z3.If(g(t.a[0]) == g(t.a[1]), 1, 0)
        elif op == "ult":
            r = z3.If(g(t.a[0]) < g(t.a[1]), 1, 0)
        elif op == "slt":
            k = width(t)
            r = z3.If(signed(t.a[0], k) < signed(t.a[1], k), 1, 0)
        elif op == "ite":
            r = z3.If(g(t.a[0]) == 1, g(t.a[1]), g(t.a[2]))
        elif op in ("and", "or") and w == 1:
            c = [g(k) == 1 for k in t.a]
            r = z3.If(z3.And(*c) if op == "and" else z3.Or(*c), 1, 0)
        elif op == "xor" and w == 1:
            r = z3.If(g(t.a[0]) == g(t.a[1]), 0, 1)
        else:
            raise sv.Unknown("no integer form for %s/%d" % (op, w))
        e[t] = r
    return e, side, vs


def check(conds):
    """like solver.check: model dict or None"""
    S = sv.STATS
    S.queries += 1
    key, vars_, order = sv.canon(conds)
    hit = _cache.get(key)
    if hit is None:
        e, side, vs = _int(order)
        s = z3.Solver()
        s.set("timeout", TIMEOUT_MS)
        s.add(*side)
        for c in conds:
            s.add(e[c] == 1 if type(c) is not int else z3.BoolVal(bool(c)))
        t0 = time.time()
        r = s.check()
        S.time += time.time() - t0
        S.solved += 1
        if r == z3.unknown:
            S.unknown += 1
            raise sv.Unknown("integer query: " + s.reason_unknown())
        if r == z3.unsat:
            S.unsat += 1
            hit = (None,)
        else:
            S.sat += 1
            m = s.model()
            hit = ([m.eval(e[v], model_completion=True).as_long() for v in vs],)
        _cache[key] = hit
    else:
        S.cache += 1
    if hit[0] is None:
        return None
    env = dict(zip(vars_, hit[0]))
    memo = {}
    for c in conds:
        if type(c) is not int and tm.evaluate(c, env, memo) != 1:
            raise AssertionError("integer model does not satisfy the term-level query")
    return env
