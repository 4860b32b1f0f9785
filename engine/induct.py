"""Loops by induction: symbolic execution of loops whose number of rounds depends on an unbounded length.

Input and output are two regions of symbolic size, far apart in the address space.  At the head of a loop (found by the
compiler of the IR, or a backward jump of inline assembly) the state is generalised: every value that changes from one
arrival to the next becomes v + c*K for one fresh counter K, or unknown; what has been written so far is compared with
the specification and summarised by a frontier (everything before it is right).  The second arrival must fit the same
description, with K grown by at least one; then the path ends.  Which values change, and how, is found by running and
looking (the coefficients come from solver models); the run that counts proves every part of the description.
"""

import time
from math import gcd
from . import core, lin, solver as sv, terms as tm
from .core import Cx, PathEnd, Violation
from .irparse import Unsupported

WIDE = 96


class Restart(Exception):
    """the description of a loop was changed"""


class Undecided(Exception):
    pass


class Hunt(Exception):
    """a loop that does not follow its description in some case: look where that case leads"""


class Go(Exception):
    pass


class Tmpl:
    """description of one loop head"""

    def __init__(self):
        self.var = {}            # name -> ("aff", c) or ("fresh",); anything else stays the same
        self.mem = {}            # (object name, ordinal, offset, size) -> same
        self.cf = 0              # advance of the frontier per unit of K
        self.slack = 0           # the frontier is put back by this much when the loop is entered
        self.dropped = set()     # inequalities that did not hold
        self.fits = 0


class Store:
    """what is known about the loops of one harness"""

    def __init__(self):
        self.tmpl = {}
        self.restarts = 0
        self.why = []
        self.hunting = True
        self.hunts = 0
        self.huntend = None

    def changed(self, why):
        self.restarts += 1
        self.why.append(why)
        if self.restarts > 300:
            e = Undecided("no description of the loops found: " + why)
            e.final = True
            raise e
        raise Restart(why)


# ------------------------------------------------------------------ linear forms

def linear(t, w, out=None, k=1):
    """t modulo 2^w as {atom: coefficient}, constants under the key None"""
    m = (1 << w) - 1
    if out is None:
        out = {}
    if type(t) is int:
        out[None] = (out.get(None, 0) + k * t) & m
        return out
    op = t.op
    if op == "add":
        linear(t.a[0], w, out, k)
        linear(t.a[1], w, out, k)
    elif op == "sub":
        linear(t.a[0], w, out, k)
        linear(t.a[1], w, out, -k)
    elif op == "mul" and type(t.a[1]) is int:
        linear(t.a[0], w, out, (k * t.a[1]) & m)
    elif op == "ext" and t.a[2] == 0 and t.a[1] + 1 >= w:
        linear(t.a[0], w, out, k)
    elif op == "concat" and t.a[-1][0] >= w:
        linear(t.a[-1][1], w, out, k)
    elif op == "concat" and type(t.a[-1][1]) is int and t.a[-1][0] < w:
        pw, pv = t.a[-1]
        rest = t.a[:-1]
        out[None] = (out.get(None, 0) + k * pv) & m
        sub = linear(tm.concat(list(rest)), w - pw)
        for a, c in sub.items():
            out[a] = (out.get(a, 0) + k * (c << pw)) & m
    else:
        out[t] = (out.get(t, 0) + k) & m
    return out


def lindiff(a, b, w):
    """constant difference of two linear forms (signed), or None"""
    m = (1 << w) - 1
    d = (a.get(None, 0) - b.get(None, 0)) & m
    for k in a:
        if k is not None and (a[k] - b.get(k, 0)) & m:
            return None
    for k in b:
        if k is not None and k not in a and b[k] & m:
            return None
    return d - (1 << w) if d >> (w - 1) else d


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Region:
    def __init__(self, name, base, span):
        self.name = name
        self.base = base
        self.span = span
        self.size = None
        self.bases = []          # (address term or int, linear form)
        self.ok = {}             # base id -> [lo, hi) proved to be inside


class CxI(Cx):
    def __init__(self, prog, decisions=(), model=None, opts=None):
        Cx.__init__(self, prog, decisions, model, opts)
        self.store_ = opts["store"]
        self.amask = 0
        self.byteck = self.check
        self.check = self._check
        if self.P == 64:
            self.S = Region("source", (1 << 61) + 0x1fff, 1 << 50)
            self.O = Region("output", (1 << 62) + 0x1fff, 1 << 50)
            self.NMAX = 1 << 46
        else:
            self.S = Region("source", 0x10001fff, 0x44000000)
            self.O = Region("output", 0x60001fff, 0x70000000)
            self.NMAX = 1 << 30
        self.KMAX = self.NMAX * 2
        self.lim = {}
        for r in (self.S, self.O):
            r.bases.append((r.base, {None: r.base}))
            r.ok[0] = [0, 0]
        self.locs = {}
        self.over = {}           # base id in the output region -> {offset: byte}
        self.front = [0, 0]      # base id, offset
        self.rel = {}            # base id of the output -> (base id of the source, D)
        self.specbyte = None     # harness: fn(base id, offset) -> expected byte term or None
        self.onread = None       # harness: fn(base id, offset, variable), first use of a source byte
        self.seen = set()
        self.nact = 0
        self.cutst = {}
        self.cutting = True
        self.nforks = 0
        self.nobj = 0
        self.objs = []
        self.inq = 0
        self.pend = {}
        self.hunt = opts.get("hunt")
        self.rounds = 0

    # ------------------------------------------------------------ solving

    def addrvar(self, name, lo, hi):
        v = tm.var(name, self.P)
        self.amask |= v.vs
        lin.limit(v, lo, hi)
        return v

    def _check(self, conds):
        for c in conds:
            if type(c) is not int and c.vs & self.amask:
                break
        else:
            return self.byteck(conds)
        self.inq += 1
        a, b = [], []
        for c in conds:
            (a if type(c) is int or c.vs & self.amask else b).append(c)
        for c in a:
            if type(c) is not int and c.vs & ~self.amask:
                raise sv.Unknown("condition that mixes lengths and contents")
        m = lin.check(a)
        if m is None:
            return None
        if b:
            k = self.byteck(b)
            if k is None:
                return None
            m = dict(m)
            m.update(k)
        return m

    def branch(self, c):
        if type(c) is int:
            return c
        if self.pend and c.vs & self.amask:
            self.flush()
        p = self.pos
        r = Cx.branch(self, c)
        if self.pos == p + 1 and not self.dec[p][2] and c.vs & self.amask:
            self.nforks += 1
        return r

    # ------------------------------------------------------------ addresses

    def region(self, v):
        for r in (self.S, self.O):
            if r.base - 65536 <= v < r.base + r.span:
                return r
        return None

    def loc(self, a):
        """(region, base id, offset) or None for ordinary memory"""
        if type(a) is int:
            if a < self.S.base - 65536:
                return None
        elif not a.vs & self.amask:
            return None
        h = self.locs.get(a)
        if h is not None:
            return h
        r = self.region(self.val(a))
        if r is None:
            return None
        h = self._loc(a, r)
        self.locs[a] = h
        return h

    def _loc(self, a, r):
        P = self.P
        L = linear(a, P)
        n = len(r.bases)
        for k in range(n - 1, -1, -1):
            d = lindiff(L, r.bases[k][1], P)
            if d is not None and abs(d) < 1 << 20:
                return (r, k, d)
        v = self.val(a)
        for k in range(n - 1, max(-1, n - 7), -1):
            b = r.bases[k][0]
            d = signed((v - self.val(b)) & ((1 << P) - 1), P)
            if abs(d) < 1 << 14 and self.holds(tm.eq(P, a, tm.add(P, b, d & ((1 << P) - 1)))):
                return (r, k, d)
        return (r, self.newbase(r, a, L), 0)

    def newbase(self, r, a, L=None):
        r.bases.append((a, L if L is not None else linear(a, self.P)))
        r.ok[len(r.bases) - 1] = None
        return len(r.bases) - 1

    def addr(self, r, k, off):
        return tm.add(self.P, r.bases[k][0], off & ((1 << self.P) - 1))

    def inside(self, r, k, off, n, rw):
        ok = r.ok[k]
        if ok is not None and ok[0] <= off and off + n <= ok[1]:
            return
        lo = off if ok is None else min(off, ok[0])
        hi = off + n if ok is None else max(off + n, ok[1])
        if ok is None or lo < ok[0]:
            self.pend[r.name, k, 0] = (r, lo, off, n, rw)
        if ok is None or hi > ok[1]:
            self.pend[r.name, k, 1] = (r, hi, off, n, rw)
        r.ok[k] = [lo, hi]

    def flush(self):
        """prove the bounds of the accesses since the last decision about lengths"""
        if not self.pend:
            return
        P = self.P
        pend = self.pend
        self.pend = {}
        if self.pos < self.nfixed:
            return               # the path this one branches off from has proved them
        for (_, k, end), (r, x, off, n, rw) in pend.items():
            what = "%s of %d bytes outside the %s" % ("write" if rw else "read", n, r.name)
            if not end:
                self.goal(tm.ule(P, r.base, self.addr(r, k, x)), what + ", before its start")
            else:
                self.goal(tm.ule(P, self.addr(r, k, x), tm.add(P, r.base, r.size)), what + ", after its end")

    def assume(self, c):
        if self.pend and type(c) is not int and c.vs & self.amask:
            self.flush()
        Cx.assume(self, c)

    def concretize(self, t, w=None, limit=400):
        if self.pend and type(t) is not int and t.vs & self.amask:
            self.flush()
        return Cx.concretize(self, t, w, limit)

    def goal(self, g, what):
        self.prove(g, what)

    def prove(self, goal, what, extra=None):
        try:
            Cx.prove(self, goal, what, extra)
        except Violation as e:
            e.goal = goal
            raise

    def suspect(self, what, goal=0):
        """something that holds in no description of the loops so far: does a run in which it fails go wrong?  goal 0: any run
        along this path."""
        judge = self.opts.get("judge")
        if judge is None:
            return
        v = Violation(what, dict(self.model), self)
        v.goal = goal
        v.doubt = type(goal) is int
        if judge(v):
            v.real = True
            raise v

    def smaller(self, goal, conds):
        """a model of this path, with the goal false and further conditions; None if there is none"""
        cs = [c for k in self.comps for c in k.conds]
        if type(goal) is not int:
            cs.append(tm.bnot1(goal))
        cs += [c for c in conds if type(c) is not int]
        try:
            m = self._check(cs)
        except sv.Unknown:
            return None
        if m is None:
            return None
        r = dict(self.model)
        r.update(m)
        return r

    # ------------------------------------------------------------ region contents

    def srcbyte(self, k, off):
        v = tm.var("in%d_%d" % (k, off), 8)
        if v not in self.seen:
            self.seen.add(v)
            if self.onread is not None:
                self.onread(k, off, v)
        return v

    def rbytes(self, h, n):
        r, k, off = h
        self.inside(r, k, off, n, 0)
        if r is self.S:
            return [self.srcbyte(k, off + i) for i in range(n)]
        d = self.over.get(k, {})
        return [d[off + i] if off + i in d else self.fresh("outu", 8) for i in range(n)]

    def wbytes(self, h, vals):
        r, k, off = h
        self.inside(r, k, off, len(vals), 1)
        if r is self.S:
            self.event("constwrite", "w", r.name, off, len(vals))
            return
        if k not in self.over:
            if self.over:
                self.walk()
            # stores through unrelated pointers may overlap: what was there counts as unknown
            self.over = {k: {}}
        d = self.over[k]
        if k == self.front[0]:
            back = self.front[1] - off
        else:
            back = 0
            if not self.holds(tm.ule(self.P, self.addr(self.O, *self.front), self.addr(r, k, off))):
                raise Undecided("store that may lie before the verified part")
        for i, v in enumerate(vals):
            if i < back:
                e = self.specbyte(k, off + i)
                if e is None or not self.holds(tm.eq(8, v, e)):
                    raise Undecided("store of something else over the verified part")
            d[off + i] = v

    def load(self, a, n):
        h = self.loc(a)
        if h is None:
            return Cx.load(self, a, n)
        return self.join(self.rbytes(h, n))

    def store(self, a, v, n):
        h = self.loc(a)
        if h is None:
            return Cx.store(self, a, v, n)
        self.wbytes(h, self.split(v, n))

    def loadv(self, a, n, eb):
        h = self.loc(a)
        if h is None:
            return Cx.loadv(self, a, n, eb)
        d = self.rbytes(h, n * eb)
        if eb == 1:
            return tuple(d)
        return tuple([self.join(d[i:i + eb]) for i in range(0, n * eb, eb)])

    def storev(self, a, v, eb):
        h = self.loc(a)
        if h is None:
            return Cx.storev(self, a, v, eb)
        out = []
        for x in v:
            out.extend([x] if eb == 1 else self.split(x, eb))
        self.wbytes(h, out)

    def memcpy(self, d, s, n):
        hd, hs = self.loc(d), self.loc(s)
        if hd is None and hs is None:
            return Cx.memcpy(self, d, s, n)
        n = self.concretize(n)
        if not n:
            return
        if hs is not None:
            b = self.rbytes(hs, n)
        elif type(s) is not int and n <= 16:
            b = self.split(self._symload(s, n), n)
        else:
            b = list(self.bytes_at(self.concretize(s), n))
        if hd is not None:
            self.wbytes(hd, b)
        else:
            self.put_bytes(self.concretize(d), b)

    def memset(self, d, v, n):
        h = self.loc(d)
        if h is None:
            return Cx.memset(self, d, v, n)
        n = self.concretize(n)
        if n:
            self.wbytes(h, [v] * n)

    def chk_align(self, a, al):
        if type(a) is int:
            Cx.chk_align(self, a, al)

    def alloc(self, size, name, *a, **k):
        o = Cx.alloc(self, size, name, *a, **k)
        self.objs.append(o)
        return o

    # ------------------------------------------------------------ the frontier

    def walk(self):
        """move the frontier over everything that is known to be right"""
        if self.specbyte is None:
            return
        P = self.P
        f = self.front
        if f[0] not in self.over and self.over:
            k = next(iter(self.over))
            d = lindiff(self.O.bases[f[0]][1], self.O.bases[k][1], P)
            if d is None:
                a, b = self.addr(self.O, *f), self.O.bases[k][0]
                c = signed((self.val(a) - self.val(b)) & ((1 << P) - 1), P)
                if abs(c) < 1 << 14 and self.holds(tm.eq(P, a, tm.add(P, b, c & ((1 << P) - 1)))):
                    d = c - f[1]
            if d is None:
                return
            f = self.front = [k, f[1] + d]
        d = self.over.get(f[0])
        if d is None:
            return
        while f[1] in d:
            e = self.specbyte(f[0], f[1])
            if e is None or not self.holds(tm.eq(8, d[f[1]], e)):
                return
            f[1] += 1

    def relation(self, k, x, y):
        """source base s and constant D with x*(source position) == y*(output position) + D, for output base k"""
        h = self.rel.get(k)
        if h is not None:
            return h
        P = self.P
        F, LF = self.O.bases[k]
        for j in range(len(self.S.bases) - 1, -1, -1):
            s, LS = self.S.bases[j]
            D = None
            if P == 64:
                a = linear(s, P, None, x)
                a[None] = (a.get(None, 0) - x * self.S.base) & ((1 << P) - 1)
                b = linear(F, P, None, y)
                b[None] = (b.get(None, 0) - y * self.O.base) & ((1 << P) - 1)
                D = lindiff(a, b, P)
                if D is not None and abs(D) > 1 << 20:
                    D = None
            if D is None:
                d = x * (self.val(s) - self.S.base) - y * (self.val(F) - self.O.base)
                if abs(d) > 1 << 14:
                    continue
                W = WIDE
                big = 1 << 70
                l = tm.add(W, tm.mul(W, tm.zext(s, P, W), x), y * self.O.base + big)
                r = tm.add(W, tm.mul(W, tm.zext(F, P, W), y), x * self.S.base + big + d)
                if self.holds(tm.eq(W, l, r)):
                    D = d
            if D is not None:
                self.rel[k] = (j, D)
                return j, D
        return None

    # ------------------------------------------------------------ cut points

    def activation(self):
        self.nact += 1
        return self.nact

    def _cells(self, o):
        c = {}
        if o.data is not None and type(o.data) is list:
            for i, b in enumerate(o.data):
                if b is not None:
                    c[(i, 1)] = b
        if o.cells:
            for off, (n, v) in o.cells.items():
                for i in range(n):
                    c.pop((off + i, 1), None)
                c[(off, n)] = v
        return c

    def _globals(self):
        seen = set()
        for o in self.slots.values():
            if o is not None and not o.const and o.kind == "global" and id(o) not in seen:
                seen.add(id(o))
                yield o

    def _snap(self):
        r = {}
        for i, o in enumerate(self.objs):
            if o.freed or o.const:
                continue
            for (off, n), v in self._cells(o).items():
                r[(o.name, i, off, n)] = v
        for o in self._globals():
            for (off, n), v in self._cells(o).items():
                r[(o.name, "g", off, n)] = v
        return r

    def _poke(self, key, v):
        nm, k, off, n = key
        if k == "g":
            o = [o for o in self._globals() if o.name == nm][0]
        else:
            o = self.objs[k]
        if o.cells is not None and n > 1:
            self._spill(o, off, n)
            o.cells[off] = (n, v)
        else:
            if o.cells:
                self._spill(o, off, n)
            o.data[off:off + n] = self.split(v, n)

    def cut(self, lp, name, names, vals, inames, invf, widths=None):
        if not self.cutting:
            if self.hunt == "on":
                self.rounds += 1
                if self.rounds > 40:
                    raise PathEnd("hunt")
            return vals
        if self.pend:
            self.flush()
        T = self.store_.tmpl.get(name)
        ent = self.cutst.get((lp, name))
        if T is None:
            if ent is None:
                self.cutst[(lp, name)] = [self.nforks, 0]
                return vals
            ent[1] += 1
            if self.nforks > ent[0] or ent[1] > 400:
                self.store_.tmpl[name] = Tmpl()
                self.store_.changed("cut at " + name)
            return vals
        inv = dict(zip(inames, invf()))
        if ent is None:
            return self._enter(T, lp, name, names, vals, inv, widths)
        try:
            self._again(T, ent, name, names, vals, inv, widths)
        except Go:
            self.cutting = False
            return vals

    def departs(self, name, g):
        """the loop does not follow its description: in the case that it does not, g is false"""
        if self.hunt == name:
            self.hunt = "on"
            self.assume(tm.bnot1(g))
            raise Go
        if self.opts.get("judge") is not None and self.store_.hunting:
            raise Hunt(name)
        self.suspect("%s does not follow its description" % name, g)

    def _width(self, widths, i, *vs):
        for v in vs:
            if type(v) is T_:
                return v.w
        w = widths[i] if widths is not None else None
        if w is None:
            raise Undecided("width of a loop variable unknown")
        return w

    def _enter(self, T, lp, name, names, vals, inv, widths):
        P = self.P
        self.walk()
        self.nfresh += 1
        K = self.addrvar("K!%d" % self.nfresh, 0, self.KMAX)
        new = list(vals)

        def gen(t, v, w):
            if t[0] == "aff":
                return tm.add(w, v, tm.mul(w, tm.trunc(tm.zext(K, P, w) if w > P else K, w), t[1] & ((1 << w) - 1)))
            if type(v) is tuple:
                return tuple([self.fresh("any", t[1]) for _ in v])
            return self.fresh("any", w)
        for i, nm in enumerate(names):
            t = T.var.get(nm)
            if t is not None and vals[i] is not None:
                if type(vals[i]) is tuple:
                    new[i] = gen(t, vals[i], None)
                else:
                    w = self._width(widths, i, vals[i])
                    new[i] = gen(t, vals[i], w)
        snap = self._snap()
        m0 = {}
        for key, t in T.mem.items():
            v = snap.get(key)
            m0[key] = v
            w = 8 * key[3]
            if v is None and t[0] == "aff":
                raise Undecided("a memory cell that is not set when a loop begins")
            self._poke(key, gen(t, v, w))
        ent = {"vals": vals, "K": K, "x": new, "m0": m0, "inv": inv, "cand": None, "names": names}
        for c in self._cands(T, ent, names, widths):
            g = self._ineq(T, c, ent, names, vals, m0, 0, widths)
            if g is None:
                continue
            if not self.holds(g):
                T.dropped.add(c)
                self.store_.changed("%s: %r does not hold on entry" % (name, c))
            g = self._ineq(T, c, ent, names, new, None, K, widths)
            self.assume(g)
        f = self.addr(self.O, self.front[0], self.front[1] - T.slack)
        if T.cf:
            f = tm.add(P, f, tm.mul(P, K, T.cf))
            self.front = [self.newbase(self.O, f), 0]
        else:
            self.front[1] -= T.slack
        self.over = {}
        for v0, v in list(zip(vals, new)) + [(m0[k], self._peek(k)) for k in T.mem]:
            if type(v) is T_ and v.w == P and v is not v0 and self._address(v0):
                self.loc(v)
        ent["front"] = list(self.front)
        ent["snap"] = self._snap()
        self.cutst[(lp, name)] = ent
        return tuple(new)

    def _address(self, v):
        """does v point into one of the regions, rather than being a number that happens to look like it?"""
        if v is None or type(v) is tuple:
            return False
        r = self.region(self.val(v))
        if r is None:
            return False
        if self.P == 64:
            return True
        L = linear(v, self.P)
        for _, B in r.bases:
            d = lindiff(L, B, self.P)
            if d is not None and abs(d) < 1 << 20:
                return True
        return False

    # inequalities assumed at the head of a loop

    def _cands(self, T, ent, names, widths):
        if ent["cand"] is not None:
            return ent["cand"]
        out = []
        vals = dict(zip(names, ent["vals"]))
        for key, t in list(T.var.items()) + [(k, t) for k, t in T.mem.items()]:
            if t[0] != "aff":
                continue
            out.append(("pos", key))
            if t[1] < 0:
                out.append(("neg", key))
            elif type(key) is str:
                v = vals.get(key)
                if v is None or type(v) is tuple:
                    continue
                w = v.w if type(v) is T_ else None
                a = self.val(v)
                for nm, u in list(ent["inv"].items()) + [(n, u) for n, u in vals.items() if n not in T.var]:
                    if type(u) is not T_ or (w is not None and u.w != w):
                        continue
                    if not u.vs & self.amask or u.vs & ~self.amask:
                        continue
                    d = self.val(u) - a
                    if -(1 << 12) <= d <= self.NMAX * 2:
                        out.append(("le", key, nm))
        out = [c for c in out if c not in T.dropped]
        ent["cand"] = out
        return out

    def _ineq(self, T, c, ent, names, x, mem, K, widths):
        """the inequality c for values x (memory values mem, None: of the head)"""
        P = self.P
        key = c[1]
        if type(key) is str:
            i = names.index(key)
            v = x[i]
            w = self._width(widths, i, v, ent["vals"][i])
            v0 = ent["vals"][i]
        else:
            w = 8 * key[3]
            v = mem.get(key) if mem is not None else None
            if v is None:
                v = self._snap().get(key)
            v0 = ent["m0"][key]
        if c[0] == "pos":
            return tm.ult(w, 0, v)
        if c[0] == "neg":
            t = T.var[key] if type(key) is str else T.mem[key]
            return tm.ule(WIDE, tm.mul(WIDE, tm.zext(K, P, WIDE) if type(K) is T_ else K, -t[1]), tm.zext(v0, w, WIDE))
        u = ent["inv"].get(c[2])
        if u is None:
            u = ent["vals"][names.index(c[2])]
        return tm.ule(w, v, u)

    def _again(self, T, ent, name, names, vals, inv, widths):
        """the head of the loop is reached once more"""
        P = self.P
        now = dict(zip(names, vals))
        if widths is not None:
            widths = [dict(zip(names, widths))[nm] for nm in ent["names"]]
        names = ent["names"]
        vals = tuple([now[nm] for nm in names])
        self.walk()
        rows = []                # (key, kind, head value, new value, width)
        for i, nm in enumerate(names):
            rows.append((nm, T.var.get(nm), ent["x"][i], vals[i], i))
        now = self._snap()
        for key, v in ent["snap"].items():
            n = now.get(key)
            if n is None:
                n = self._peek(key)
            rows.append((key, T.mem.get(key), v, n, None))
        for key in T.mem:
            if key not in ent["snap"]:
                raise Undecided("memory cell lost")
        change = []
        for key, t, h, n, i in rows:
            if t is not None and t[0] == "fresh":
                continue
            if h is n or h == n and type(h) is int:
                if t is not None:
                    change.append((key, t, h, n, i))
                continue
            if t is None and h is not None and n is not None and type(h) is not tuple:
                w = self._width(widths, i, h, n) if i is not None else 8 * key[3]
                if self.holds(tm.eq(w, h, n)):
                    continue
            elif t is None and type(h) is tuple and type(n) is tuple and len(h) == len(n) and all(a is b or a == b for a, b in zip(h, n)):
                continue
            change.append((key, t, h, n, i))
        # changed values that no multiple of a counter describes
        fresh = []
        aff = []
        for key, t, h, n, i in change:
            if h is None or n is None:
                if h is None:
                    # not set when the loop was entered: nothing may rely on it
                    continue
                fresh.append((key, h, i))
                continue
            if type(h) is tuple or type(n) is tuple:
                fresh.append((key, h, i))
                continue
            w = self._width(widths, i, h, n) if i is not None else 8 * key[3]
            vs = (h.vs if type(h) is T_ else 0) | (n.vs if type(n) is T_ else 0)
            if vs & ~self.amask:
                fresh.append((key, h, i))
                continue
            aff.append((key, t, h, n, w))
        if fresh:
            for key, h, i in fresh:
                if type(h) is tuple:
                    ew = next((x.w for x in h if type(x) is T_), None)
                    if ew is None:
                        ew = widths[i][0] if widths is not None and type(widths[i]) is tuple else 8
                    t = ("fresh", ew)
                else:
                    t = ("fresh",)
                if type(key) is str:
                    T.var[key] = t
                else:
                    T.mem[key] = t
            self.store_.changed("%s: unknown %s" % (name, [k for k, _, _ in fresh]))
        if any(t is None for _, t, _, _, _ in aff):
            self._fit(T, name, aff, ent, self._differ(aff))
        # the step
        M = 1
        if aff:
            key, t, h, n, w = min(aff, key=lambda r: abs(r[1][1]))
            d = tm.sub(w, n, h) if t[1] > 0 else tm.sub(w, h, n)
            M = tm.udiv(w, d, abs(t[1]))
            M = tm.zext(M, w, P) if w < P else tm.trunc(M, P)
        for key, t, h, n, w in aff:
            k = tm.trunc(tm.zext(M, P, w) if w > P else M, w)
            g = tm.eq(w, n, tm.add(w, h, tm.mul(w, k, t[1] & ((1 << w) - 1))))
            self.obl += 1
            if not self.holds(g):
                if T.fits:
                    self.departs(name, g)
                self._fit(T, name, aff, ent, self.sat(tm.bnot1(g)) if type(g) is not int else dict(self.model))
        self._step(T, name, ent, M, names, vals, now, widths, aff)
        raise PathEnd("back at " + name)

    def _peek(self, key):
        nm, k, off, n = key
        if k == "g":
            o = [o for o in self._globals() if o.name == nm][0]
        else:
            o = self.objs[k]
        if o.cells:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            self._spill(o, off, n)
        b = o.data[off:off + n]
        if None in b:
            return None
        return self.join(b)

    def _differ(self, aff):
        """a model in which the values that change do change"""
        m = dict(self.model)
        for key, t, h, n, w in aff:
            if t is None and tm.evaluate(h, m, {}) == tm.evaluate(n, m, {}):
                r = self.sat(tm.ne(w, h, n))
                if r is not None:
                    return r
        return m

    def _fit(self, T, name, aff, ent, m):
        T.fits += 1
        if T.fits > 30:
            e = Undecided("values at %s follow no linear pattern" % name)
            e.final = True
            raise e
        memo = {}
        ev = lambda x: tm.evaluate(x, m, memo)
        ds = []
        for key, t, h, n, w in aff:
            ds.append(signed((ev(n) - ev(h)) & ((1 << w) - 1), w))
        df = 0
        a, b = self.addr(self.O, *self.front), self.addr(self.O, *ent["front"])
        df = ev(a) - ev(b)
        old = [t[1] if t is not None else None for _, t, _, _, _ in aff]
        if all(o is not None for o in old):
            # reference: the value in the largest group of values that agree on the step
            best = None
            for r in range(len(aff)):
                bad = [i for i in range(len(aff)) if ds[i] * old[r] != ds[r] * old[i]]
                if best is None or len(bad) < len(best):
                    best = bad
            if best:
                self.suspect("values at %s follow no common step" % name, 0)
                for i in best:
                    key = aff[i][0]
                    (T.var if type(key) is str else T.mem)[key] = ("fresh",)
                self.store_.changed("%s: no common step %s" % (name, [aff[i][0] for i in best]))
        g = 0
        for d in ds:
            g = gcd(g, abs(d))
        if df > 0:
            g = gcd(g, df)
        if g == 0:
            raise Undecided("values at %s change in no model" % name)
        sign = 1
        new = {}
        for (key, t, h, n, w), d in zip(aff, ds):
            if d == 0:
                if t is None:
                    continue
                (T.var if type(key) is str else T.mem)[key] = ("fresh",)
            else:
                (T.var if type(key) is str else T.mem)[key] = ("aff", d // g)
        T.cf = max(0, df) // g
        T.dropped = set()
        self.store_.changed("%s: steps %r / %d, frontier %d" % (name, [(r[0], d) for r, d in zip(aff, ds)], g, df))

    def _step(self, T, name, ent, M, names, vals, now, widths, aff):
        P = self.P
        K = ent["K"]
        # progress, and the counter stays in its range
        if aff and not self.holds(tm.ult(P, 0, M)):
            raise Undecided("%s may be reached again without progress" % name)
        k1 = tm.add(P, K, M)
        for c in self._cands(T, ent, names, widths):
            g = self._ineq(T, c, ent, names, vals, now, k1, widths)
            self.obl += 1
            if not self.holds(g):
                self.departs(name, g)
                T.dropped.add(c)
                self.store_.changed("%s: %r does not persist" % (name, c))
        if aff and not self.holds(tm.ule(P, M, tm.sub(P, self.KMAX, K))):
            raise Undecided("no bound on the number of rounds at %s" % name)
        # the frontier has kept up
        want = tm.add(P, self.addr(self.O, *ent["front"]), tm.mul(P, M, T.cf))
        have = self.addr(self.O, *self.front)
        self.obl += 1
        if not self.holds(tm.ule(P, want, have)):
            m = self.sat(tm.bnot1(tm.ule(P, want, have)))
            self.stuck(m)
            dv = tm.evaluate(want, m, {}) - tm.evaluate(have, m, {})
            mv = tm.evaluate(M, m, {}) if type(M) is T_ else M
            df = tm.evaluate(have, m, {}) - tm.evaluate(self.addr(self.O, *ent["front"]), m, {})
            if 0 < dv < 64 and T.slack == 0 and df >= 0:
                T.slack = dv
                self.store_.changed("%s: frontier behind by %d" % (name, dv))
            if T.cf and df >= 0 and df // mv < T.cf:
                T.cf = df // mv
                self.store_.changed("%s: frontier advances by %d only" % (name, T.cf))
            raise Undecided("output at %s does not follow the specification" % name)

    def stuck(self, m):
        """the byte at the frontier: if it was written and is wrong, that is a counterexample"""
        f = self.front
        d = self.over.get(f[0])
        if d is None or f[1] not in d or self.specbyte is None:
            return
        e = self.specbyte(f[0], f[1])
        if e is not None:
            self.model = m
            self.memo = {}
            self.prove(tm.eq(8, d[f[1]], e), "output byte differs from the specification")


T_ = tm.T


# ------------------------------------------------------------------ running a harness

def explore(prog, harness, store, deadline, opts=None, judge=None):
    """every path of the harness, loops by induction; a core.Result.  judge: is this counterexample a real one?  (The state
    at the head of a loop may be one that no run reaches.)"""
    opts = dict(opts or {}, store=store, judge=judge)
    while True:
        core.housekeeping()
        lin.reset(prog.ptrbits)
        res = core.Result()
        res.doubts = []
        work = [([], {})]
        departed = False
        try:
            while work:
                if time.time() > deadline:
                    res.complete = False
                    return res
                dec, mod = work.pop(0)
                cx = CxI(prog, dec, mod, opts)
                prog.setup(cx)
                try:
                    v = harness(cx)
                    cx.flush()
                    res.values.append(v)
                except PathEnd:
                    res.values.append("loop")
                except Hunt as e:
                    departed = True
                    if store.huntend is None:
                        store.huntend = time.time() + 60
                    store.hunts += 1
                    v = hunt(prog, harness, opts, cx, str(e), min(deadline, store.huntend))
                    if v is not None:
                        res.violation = v
                        res.paths += 1
                        return res
                    if store.hunts > 24 or time.time() > store.huntend:
                        work = []
                        break
                except Violation as e:
                    if judge is None or getattr(e, "real", False) or judge(e):
                        res.violation = e
                        res.paths += 1
                        return res
                    res.values.append("undecided")
                    res.doubts.append("not reproduced on the real build: " + str(e))
                except (Undecided, sv.Unknown, Unsupported, core.StepLimit) as e:
                    try:
                        cx.suspect(str(e)[:120])
                    except Violation as e2:
                        res.violation = e2
                        res.paths += 1
                        return res
                    res.values.append("undecided")
                    res.doubts.append("%s: %s" % (type(e).__name__, str(e)[:200]))
                    if getattr(e, "final", False) or len(res.doubts) > 40:
                        res.complete = False
                        return res
                res.paths += 1
                res.transitions += max(1, cx.pos)
                res.steps += cx.steps
                res.obl += cx.obl
                res.obl_syntactic += cx.obl_syntactic
                work.extend(cx.alts)
                if res.paths > 100000:
                    res.complete = False
                    return res
        except Restart as e:
            if opts.get("verbose"):
                print("restart after", res.paths, str(e)[:150])
            continue
        if departed:
            # nothing went wrong: the description has to change
            store.hunting = False
            continue
        return res


def hunt(prog, harness, opts, cx, name, deadline):
    """the path of cx, in the case that the loop at `name` does not follow its description, to its end"""
    opts = dict(opts, hunt=name)
    work = [(cx.dec[:cx.pos], dict(cx.model))]
    end = min(deadline, time.time() + 30)
    n = 0
    while work and n < 300 and time.time() < end:
        n += 1
        dec, mod = work.pop(0)
        c = CxI(prog, dec, mod, opts)
        prog.setup(c)
        try:
            harness(c)
            c.flush()
        except Violation as e:
            if getattr(e, "real", False) or opts["judge"](e):
                return e
        except (PathEnd, Restart, Hunt):
            pass
        except (Undecided, sv.Unknown, Unsupported, core.StepLimit) as e:
            try:
                c.suspect(str(e)[:120])
            except Violation as e2:
                return e2
        work.extend(c.alts)
    return None
