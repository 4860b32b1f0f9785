"""SMT back end: canonical query cache over z3 (cvc5 as a second opinion)."""

import time
import z3
from . import terms as tm
from .terms import T


class SolverStats:
    def __init__(self):
        self.queries = 0        # questions asked by the executor
        self.cache = 0          # answered from the alpha-renamed query cache
        self.solved = 0         # decided by the SMT solver
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.cross = 0
        self.cross_bad = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


STATS = SolverStats()
TIMEOUT_MS = 30000
CROSS = False              # re-decide a share of the queries with cvc5
_CACHE = {}
_CTX = z3.main_ctx()


class Unknown(Exception):
    """the solver gave up"""


def _kids(t):
    op = t.op
    if op == "concat":
        return [v for _, v in t.a]
    if op == "ext":
        return [t.a[0]]
    if op == "tbl" or op == "fn":
        return [t.a[1]]
    return t.a


def _postorder(roots):
    out = []
    seen = set()
    stack = [(r, False) for r in reversed(roots)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        stack.append((t, True))
        if t.op != "var":
            for k in reversed(_kids(t)):
                if type(k) is not int and k not in seen:
                    stack.append((k, False))
    return out


_TABIDS = {}
_TABOBJ = {}


def _tabid(tab):
    """small number standing for the contents of a table"""
    r = _TABOBJ.get(id(tab))
    if r is None:
        n = _TABIDS.setdefault(tab, len(_TABIDS))
        r = (n, tab)
        _TABOBJ[id(tab)] = r
    return r[0]


def canon(roots):
    """(key, order of variables): key is independent of variable names."""
    order = _postorder(roots)
    num = {}
    vars_ = []
    key = []
    for i, t in enumerate(order):
        num[t] = i
        op = t.op
        if op == "var":
            key.append(("v", t.w))
            vars_.append(t)
        elif op == "concat":
            key.append(("c", tuple([(w, v if type(v) is int else ("n", num[v])) for w, v in t.a])))
        elif op == "ext":
            key.append(("e", num[t.a[0]], t.a[1], t.a[2]))
        elif op == "tbl" or op == "fn":
            key.append(("t", t.w, _tabid(t.a[0]), num[t.a[1]]))
        else:
            key.append((op, t.w, tuple([("n", num[k]) if type(k) is not int else k for k in t.a])))
    return tuple(key) + tuple(num[r] for r in roots), vars_, order


def to_z3(order, names=None):
    """z3 expressions of all terms in postorder `order` (dict)."""
    e = {}
    bv = z3.BitVecVal
    nv = 0

    def g(x, w):
        return bv(x, w) if type(x) is int else e[x]

    def boolof(x):
        return e[x] == bv(1, 1)

    for t in order:
        op, w = t.op, t.w
        if op == "var":
            r = z3.BitVec("x%d" % nv, w)
            nv += 1
        elif op == "concat":
            r = z3.Concat(*[g(v, pw) for pw, v in t.a])
        elif op == "ext":
            r = z3.Extract(t.a[1], t.a[2], e[t.a[0]])
        elif op == "tbl" or op == "fn":
            tab, idx = t.a
            r = _tbl_z3(tab, e[idx], w, idx.w)
        elif op in ("and", "or"):
            r = g(t.a[0], w)
            for k in t.a[1:]:
                r = (r & g(k, w)) if op == "and" else (r | g(k, w))
        elif op == "xor":
            r = g(t.a[0], w) ^ g(t.a[1], w)
        elif op in ("not", "inv"):
            r = ~e[t.a[0]]
        elif op == "add":
            r = g(t.a[0], w) + g(t.a[1], w)
        elif op == "sub":
            r = g(t.a[0], w) - g(t.a[1], w)
        elif op == "mul":
            r = g(t.a[0], w) * g(t.a[1], w)
        elif op == "eq":
            ww = tm.width_of(*t.a)
            r = z3.If(g(t.a[0], ww) == g(t.a[1], ww), bv(1, 1), bv(0, 1))
        elif op == "ult":
            ww = tm.width_of(*t.a)
            r = z3.If(z3.ULT(g(t.a[0], ww), g(t.a[1], ww)), bv(1, 1), bv(0, 1))
        elif op == "slt":
            ww = tm.width_of(*t.a)
            r = z3.If(g(t.a[0], ww) < g(t.a[1], ww), bv(1, 1), bv(0, 1))
        elif op == "ite":
            r = z3.If(boolof(t.a[0]), g(t.a[1], w), g(t.a[2], w))
        elif op == "sext":
            r = z3.SignExt(w - t.a[0].w, e[t.a[0]])
        elif op == "shl":
            r = g(t.a[0], w) << g(t.a[1], w)
        elif op == "lshr":
            r = z3.LShR(g(t.a[0], w), g(t.a[1], w))
        elif op == "ashr":
            r = g(t.a[0], w) >> g(t.a[1], w)
        elif op == "udiv":
            r = z3.UDiv(g(t.a[0], w), g(t.a[1], w))
        elif op == "urem":
            r = z3.URem(g(t.a[0], w), g(t.a[1], w))
        elif op == "sdiv":
            r = g(t.a[0], w) / g(t.a[1], w)
        elif op == "srem":
            r = z3.SRem(g(t.a[0], w), g(t.a[1], w))
        else:
            raise AssertionError(op)
        e[t] = r
    return e


def _tbl_z3(tab, idx, w, iw):
    memo = {}

    def rec(lo, n, bit):
        sub = tab[lo:lo + n]
        r = memo.get(sub)
        if r is not None:
            return r
        if n == 1 or all(x == sub[0] for x in sub):
            r = z3.BitVecVal(sub[0], w)
        else:
            h = n // 2
            c = z3.Extract(bit, bit, idx) == z3.BitVecVal(1, 1)
            r = z3.If(c, rec(lo + h, h, bit - 1), rec(lo, h, bit - 1))
        memo[sub] = r
        return r

    return rec(0, len(tab), iw - 1)


def _join_tables(roots):
    """conjoin the tabulated conditions over one variable, except the last root (the goal)"""
    per = {}
    rest = []
    for r in roots[:-1]:
        if r.op == "fn":
            x = r.a[1]
            per[x] = tm.band(1, per[x], r) if x in per else r
        else:
            rest.append(r)
    for t in per.values():
        if type(t) is int:
            if t == 0:
                return None
        else:
            rest.append(t)
    rest.append(roots[-1])
    return rest


def check(conds):
    """conds: width-1 terms (or ints). Returns None (unsat) or a model {var: int}."""
    roots = []
    seen = set()
    for c in conds:
        if type(c) is int:
            if c == 0:
                return None
            continue
        if c not in seen:
            seen.add(c)
            roots.append(c)
    if not roots:
        return {}
    if tm._FN and len(roots) > 2:
        roots = _join_tables(roots)
        if roots is None:
            return None
    STATS.queries += 1
    roots0 = tuple(roots)
    r = _EXACT.get(roots0, 0)
    if r != 0:
        STATS.cache += 1
        return None if r is None else dict(r)
    r = _check(roots)
    if len(_EXACT) > 400000:
        _EXACT.clear()
    _EXACT[roots0] = r
    return None if r is None else dict(r)


_EXACT = {}


def _check(roots):
    key, vars_, order = canon(roots)
    hit = _CACHE.get(key)
    if hit is not None:
        STATS.cache += 1
        vals = hit[0]
        if vals is None:
            return None
        return dict(zip(vars_, vals))
    t0 = time.time()
    e = to_z3(order)
    s = z3.SolverFor("QF_BV")
    s.set("timeout", TIMEOUT_MS)
    for r in roots:
        s.add(e[r] == z3.BitVecVal(1, 1))
    res = s.check()
    STATS.solved += 1
    if res == z3.sat:
        STATS.sat += 1
        m = s.model()
        vals = []
        for v in vars_:
            x = m.eval(e[v], model_completion=True)
            vals.append(x.as_long())
        vals = tuple(vals)
        # the model must satisfy our own reading of the query
        env = dict(zip(vars_, vals))
        memo = {}
        for r in roots:
            if tm.evaluate(r, env, memo) != 1:
                raise AssertionError("solver model does not satisfy the term-level query")
    elif res == z3.unsat:
        STATS.unsat += 1
        vals = None
    else:
        STATS.unknown += 1
        STATS.time += time.time() - t0
        raise Unknown("z3: " + s.reason_unknown())
    STATS.time += time.time() - t0
    if CROSS:
        _cross(s, vals is not None)
    _CACHE[key] = (vals,)
    if vals is None:
        return None
    return dict(zip(vars_, vals))


def _cross(s, is_sat):
    """second opinion by cvc5 on the SMT-LIB text of the query"""
    try:
        import cvc5
    except ImportError:
        return
    text = "(set-logic QF_BV)\n" + s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", "60000")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
    sm = p.getSymbolManager()
    out = []
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        if str(c).startswith("(set-info") or str(c).startswith("(set-logic"):
            if str(c).startswith("(set-logic") and out is not None:
                try:
                    c.invoke(slv, sm)
                except Exception:
                    pass
            continue
        r = c.invoke(slv, sm)
        if r:
            out.append(str(r).strip())
    STATS.cross += 1
    ans = [x for x in out if x in ("sat", "unsat")]
    if not ans:
        return
    if (ans[-1] == "sat") != is_sat:
        STATS.cross_bad += 1
        raise AssertionError("z3 and cvc5 disagree")


def valid(conds, goal):
    """None when conds imply goal, otherwise a model of conds and not goal."""
    if type(goal) is int:
        if goal:
            return None
        return check(conds)
    return check(list(conds) + [tm.bnot1(goal)])


def reset():
    """drop everything that refers to terms; the canonical query cache stays"""
    _EXACT.clear()
