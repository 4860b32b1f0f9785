"""Path-wise symbolic execution: re-execution with a recorded decision prefix.

Every path of a harness is one Python run of it.  Whenever the harness or the
code under test needs the truth of a symbolic condition, `Cx.branch` either
replays the recorded decision or follows the current model and asks the solver
whether the other side is feasible as well (if so it is put on the work list).
"""

import time
from . import terms as tm
from . import solver as sv
from .terms import T
from .irparse import Unsupported


class PathEnd(Exception):
    """this path stops here (assumption failed, exit(), ...)"""


class Violation(Exception):
    def __init__(self, what, model, cx, extra=None):
        Exception.__init__(self, what)
        self.what = what
        self.model = model
        self.cx = cx
        self.extra = extra


class StepLimit(Exception):
    pass


class Obj:
    __slots__ = ("base", "size", "data", "cells", "name", "const", "watch", "written", "kind", "lo_r", "hi_r",
                 "freed", "rd", "shared", "sym")

    def __init__(self, base, size, name, kind):
        self.base = base
        self.size = size
        self.name = name
        self.kind = kind
        self.const = False
        self.data = None
        self.cells = None
        self.watch = None
        self.written = None
        self.rd = None
        self.freed = False
        self.shared = False
        self.sym = None          # symbolic size (term of pointer width), at most size


class Sparse(dict):
    """lazily filled data of a very large object"""

    def __init__(self, default):
        dict.__init__(self)
        self.default = default

    def __getitem__(self, k):
        if type(k) is slice:
            return [self.get(i, self.default) for i in range(k.start, k.stop)]
        return self.get(k, self.default)

    def __setitem__(self, k, v):
        if type(k) is slice:
            i = k.start
            for x in v:
                dict.__setitem__(self, i, x)
                i += 1
        else:
            dict.__setitem__(self, k, v)


SPARSE_FROM = 1 << 16


class Comp:
    __slots__ = ("mask", "conds")

    def __init__(self, mask, conds):
        self.mask = mask
        self.conds = conds


def _firstvar(t):
    return t.vs & -t.vs


class Cx:
    def __init__(self, prog, decisions=(), model=None, opts=None):
        self.prog = prog
        self.P = prog.ptrbits if prog else 64
        self.little = prog.little if prog else True
        self.dec = list(decisions)
        self.nfixed = len(self.dec)
        self.pos = 0
        self.model = dict(model or {})
        self.memo = {}
        self.comps = []
        self.facts = {}
        self.alts = []
        self.slots = {}
        self.nslot = 16
        self.events = []
        self.steps = 0
        self.max_steps = 3000000
        self.nfresh = 0
        self.obl = 0
        self.obl_syntactic = 0
        self.hooks = {}
        self.globals_ = {}
        self.faddr = {}
        self.fname = {}
        self.opts = opts or {}
        self.sched = None
        self.log = []
        self.user = {}
        self.check = sv.check

    # ------------------------------------------------------------ decisions

    def fresh(self, prefix, w):
        self.nfresh += 1
        return tm.var("%s!%d" % (prefix, self.nfresh), w)

    def val(self, t):
        if type(t) is int:
            return t
        return tm.evaluate(t, self.model, self.memo)

    def _slice(self, vs):
        out = []
        for c in self.comps:
            if c.mask & vs:
                out.extend(c.conds)
        return out

    def _learn(self, c):
        """add c (known to be consistent with the path) to the path condition"""
        if type(c) is int:
            return
        if c in self.facts:
            return
        if c.op == "and":
            for x in c.a:
                self._learn(x)
            self.facts[c] = 1
            return
        if c.op == "not" and c.a[0].op == "or":
            for x in c.a[0].a:
                self._learn(tm.bnot1(x))
            self.facts[c] = 1
            self.facts[c.a[0]] = 0
            return
        self.facts[c] = 1
        self.facts[tm.bnot1(c)] = 0
        m = c.vs
        hit = None
        keep = []
        for k in self.comps:
            if k.mask & m:
                if hit is None:
                    hit = Comp(k.mask | m, list(k.conds))
                else:
                    hit.mask |= k.mask
                    hit.conds.extend(k.conds)
            else:
                keep.append(k)
        if hit is None:
            hit = Comp(m, [])
        hit.conds.append(c)
        keep.append(hit)
        self.comps = keep

    def sat(self, c):
        """model (full) of path condition and c, or None"""
        if type(c) is int:
            return dict(self.model) if c else None
        f = self.facts.get(c)
        if f is not None:
            return dict(self.model) if f else None
        m = self.check(self._slice(c.vs) + [c])
        if m is None:
            return None
        r = dict(self.model)
        r.update(m)
        return r

    def branch(self, c):
        """truth of c on this path (forks when both are feasible)"""
        if type(c) is int:
            return c
        f = self.facts.get(c)
        if f is not None:
            return f
        # decide conjunctions piece by piece: no disjunction enters the path condition
        n = 0
        k = c
        if k.op == "not":
            n = 1
            k = k.a[0]
        if k.op == "and" or k.op == "or":
            stop = 0 if k.op == "and" else 1
            r = 1 - stop
            for x in sorted(k.a, key=_firstvar):
                if self.branch(x) == stop:
                    r = stop
                    break
            self.facts[k] = r
            self.facts[tm.bnot1(k)] = 1 - r
            return r ^ n
        if self.pos < len(self.dec):
            d, _, implied = self.dec[self.pos]
            self.pos += 1
            if implied:
                self.facts[c] = d
                self.facts[tm.bnot1(c)] = 1 - d
            else:
                self._learn(c if d else tm.bnot1(c))
            return d
        v = self.val(c)
        other = tm.bnot1(c) if v else c
        m = self.check(self._slice(c.vs) + [other])
        self.pos += 1
        if m is not None:
            r = dict(self.model)
            r.update(m)
            self.alts.append((self.dec + [(1 - v, None, False)], r))
            self.dec.append((v, None, False))
            self._learn(c if v else tm.bnot1(c))
        else:
            self.dec.append((v, None, True))
            self.facts[c] = v
            self.facts[tm.bnot1(c)] = 1 - v
        return v

    def concretize(self, t, w=None, limit=400):
        """fork over the feasible values of t"""
        n = 0
        while type(t) is not int:
            n += 1
            if n > limit:
                raise Unsupported("too many values to enumerate")
            v = self.val(t)
            c = tm.eq(t.w, t, v)
            f = self.facts.get(c) if type(c) is not int else c
            if f == 1:
                return v
            if self.pos < len(self.dec):
                d, v, implied = self.dec[self.pos]
                self.pos += 1
                c = tm.eq(t.w, t, v)
                if implied:
                    self.facts[c] = 1
                else:
                    self._learn(c if d else tm.bnot1(c))
                if d:
                    return v
                continue
            m = self.check(self._slice(t.vs) + [tm.bnot1(c)])
            self.pos += 1
            if m is None:
                self.dec.append((1, v, True))
                self.facts[c] = 1
                return v
            r = dict(self.model)
            r.update(m)
            self.alts.append((self.dec + [(0, v, False)], r))
            self.dec.append((1, v, False))
            self._learn(c)
            return v
        return t

    def choose(self, n, tag=""):
        """nondeterministic choice in range(n), all explored"""
        if n <= 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]
            self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.alts.append((self.dec + [(k, None, False)], dict(self.model)))
        self.dec.append((0, None, False))
        self.pos += 1
        return 0

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathEnd("assume")
            return
        f = self.facts.get(c)
        if f == 1:
            return
        if f == 0:
            raise PathEnd("assume")
        if not self.val(c):
            m = self.check(self._slice(c.vs) + [c])
            if m is None:
                raise PathEnd("assume")
            self.model.update(m)
            self.memo = {}
        self._learn(c)

    # ------------------------------------------------------------ assertions

    def prove(self, goal, what, extra=None):
        self.obl += 1
        if type(goal) is int:
            if goal:
                self.obl_syntactic += 1
                return
            raise Violation(what, dict(self.model), self, extra)
        f = self.facts.get(goal)
        if f == 1:
            return
        m = self.sat(tm.bnot1(goal))
        if m is not None:
            raise Violation(what, m, self, extra)

    def holds(self, goal):
        """is goal implied by the path condition?"""
        if type(goal) is int:
            return bool(goal)
        f = self.facts.get(goal)
        if f is not None:
            return f == 1
        return self.sat(tm.bnot1(goal)) is None

    # loop heads (engine/induct.py generalises there)

    def activation(self):
        return 0

    def cut(self, lp, name, names, vals, inames, invf, widths=None):
        return vals

    # ------------------------------------------------------------ memory

    def alloc(self, size, name, init=None, kind="heap", misalign=0, const=False):
        """init: None (uninitialised), int byte, or list of byte values"""
        if size <= 0x4000:
            s = self.nslot
            self.nslot += 1
            base = (s << 16) + 0x8000 + misalign
            o = Obj(base, size, name, kind)
            self.slots[s] = o
        else:
            n = (size + misalign + 0xffff) // 65536
            s = self.nslot
            self.nslot += n + 2
            base = ((s + 1) << 16) + misalign
            o = Obj(base, size, name, kind)
            for k in range(s, s + n + 2):
                self.slots[k] = o
        if self.P == 32 and self.nslot >= 65536:
            raise Unsupported("address space")
        if init is None or type(init) is int:
            o.data = [init] * size if size <= SPARSE_FROM else Sparse(init)
        else:
            o.data = list(init)
        o.const = const
        if kind == "stack" and size <= 64:
            o.cells = {}
        return o

    def obj_at(self, a):
        return self.slots.get(a >> 16)

    def event(self, kind, *info):
        self.events.append((kind,) + info)
        if len(self.events) > 400:
            raise Violation("hundreds of invalid memory accesses", dict(self.model), self)

    def _spill(self, o, off, n):
        for k in list(o.cells):
            cn, cv = o.cells[k]
            if k < off + n and off < k + cn:
                del o.cells[k]
                d = o.data
                if type(cv) is int:
                    if self.little:
                        for i in range(cn):
                            d[k + i] = (cv >> (8 * i)) & 255
                    else:
                        for i in range(cn):
                            d[k + cn - 1 - i] = (cv >> (8 * i)) & 255
                else:
                    for i in range(cn):
                        b = tm.ext(cv, 8 * i + 7, 8 * i)
                        d[k + (i if self.little else cn - 1 - i)] = b

    def bytes_at(self, a, n):
        """list of n byte values at concrete address a"""
        o = self.slots.get(a >> 16)
        if o is None:
            self.event("wild", "r", a, n)
            return [self.fresh("wild", 8) for _ in range(n)]
        off = a - o.base
        if o.freed:
            self.event("uaf", "r", o.name, off, n)
        if off < 0 or off + n > o.size:
            self.event("oob", "r", o.name, off, n)
            out = []
            for i in range(off, off + n):
                if 0 <= i < o.size:
                    out.extend(self.bytes_at(o.base + i, 1))
                else:
                    # stable content of the neighbourhood
                    out.append(tm.var("oob_%s_%d" % (o.name, i), 8))
            return out
        if o.sym is not None:
            self.symbound("r", o, off, n)
        if o.cells:
            self._spill(o, off, n)
        if o.rd is not None:
            o.rd(off, n)
        d = o.data[off:off + n]
        if None in d:
            for i in range(n):
                if d[i] is None:
                    v = tm.var("uninit_%s_%d" % (o.name, off + i), 8)
                    self.log.append(("uninit", o.name, off + i))
                    o.data[off + i] = v
                    d[i] = v
        return d

    def symbound(self, rw, o, off, n):
        """the access must lie below the symbolic size for every value it can take on this path"""
        self.obl += 1
        g = tm.ule(self.P, off + n, o.sym)
        m = self.sat(tm.bnot1(g))
        if m is not None:
            raise Violation("%s of %d bytes at offset %d of %s, whose size can be %d" % (
                "write" if rw == "w" else "read", n, off, o.name, tm.evaluate(o.sym, m, {})), m, self)

    def put_bytes(self, a, vals):
        o = self.slots.get(a >> 16)
        n = len(vals)
        if o is None:
            self.event("wild", "w", a, n)
            return
        off = a - o.base
        if o.freed:
            self.event("uaf", "w", o.name, off, n)
        if off < 0 or off + n > o.size:
            self.event("oob", "w", o.name, off, n)
            for i in range(n):
                if 0 <= off + i < o.size:
                    self.put_bytes(a + i, [vals[i]])
            return
        if o.sym is not None:
            self.symbound("w", o, off, n)
        if o.const:
            self.event("constwrite", "w", o.name, off, n)
            return
        if o.cells:
            self._spill(o, off, n)
        o.data[off:off + n] = vals
        if o.written is not None:
            o.written.update(range(off, off + n))

    def load(self, a, n):
        """integer of n bytes at address a (int or term)"""
        if type(a) is not int:
            return self._symload(a, n)
        if self.sched is not None:
            self.sched(self, a, n, 0)
        o = self.slots.get(a >> 16)
        if o is not None and o.cells is not None:
            off = a - o.base
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
        d = self.bytes_at(a, n)
        return self.join(d)

    def join(self, d):
        """bytes in address order -> integer"""
        if len(d) == 1:
            return d[0]
        if self.little:
            d = d[::-1]
        r = 0
        for x in d:
            if type(x) is not int:
                return tm.concat([(8, y) for y in d])
            r = (r << 8) | x
        return r

    def split(self, v, n):
        """integer -> n bytes in address order"""
        if type(v) is int:
            out = [(v >> (8 * i)) & 255 for i in range(n)]
        elif v.op == "concat" and len(v.a) == n and all(w == 8 for w, _ in v.a):
            out = [x for _, x in v.a]
            return out[::-1] if self.little else out
        else:
            out = [tm.ext(v, 8 * i + 7, 8 * i) for i in range(n)]
        return out if self.little else out[::-1]

    def store(self, a, v, n):
        if type(a) is not int:
            if "symstore" in self.hooks and self.hooks["symstore"](self, a, v, n):
                return
            a = self._symaddr(a, n)
        if self.sched is not None:
            self.sched(self, a, n, 1)
        o = self.slots.get(a >> 16)
        if o is not None and o.cells is not None and n > 1:
            off = a - o.base
            if 0 <= off and off + n <= o.size:
                c = o.cells.get(off)
                if c is None or c[0] != n:
                    self._spill(o, off, n)
                o.cells[off] = (n, v)
                return
        self.put_bytes(a, self.split(v, n))

    def loadv(self, a, n, eb):
        """vector of n elements of eb bytes"""
        if type(a) is not int:
            a = self.concretize(a)
        if self.sched is not None:
            self.sched(self, a, n * eb, 0)
        d = self.bytes_at(a, n * eb)
        if eb == 1:
            return tuple(d)
        return tuple([self.join(d[i:i + eb]) for i in range(0, n * eb, eb)])

    def storev(self, a, v, eb):
        if type(a) is not int:
            a = self.concretize(a)
        if self.sched is not None:
            self.sched(self, a, len(v) * eb, 1)
        if eb == 1:
            self.put_bytes(a, list(v))
            return
        out = []
        for x in v:
            out.extend(self.split(x, eb))
        self.put_bytes(a, out)

    def chk_align(self, a, al):
        if type(a) is int and a % al:
            self.event("misaligned", "", a, al)

    # -------- symbolic addresses

    def _symaddr(self, a, n):
        return self.concretize(a)

    def _table_view(self, a):
        """a = const + scattered symbolic bits: (index term, fn j -> address) or None"""
        c = 0
        t = a
        if t.op == "add" and type(t.a[1]) is int:
            c = t.a[1]
            t = t.a[0]
        if t.op == "ite":
            return None
        pcs = t.a if t.op == "concat" else ((t.w, t),)
        n = sum(w for w, v in pcs if type(v) is not int)
        if n > 13:
            return None
        idx = tm.concat([(w, v) for w, v in pcs if type(v) is not int])
        w = t.w
        m = (1 << w) - 1

        spec = []
        pos = w
        ipos = n
        base = 0
        for pw, pv in pcs:
            pos -= pw
            if type(pv) is int:
                base |= pv << pos
            else:
                ipos -= pw
                spec.append((pos, ipos, (1 << pw) - 1))

        def addr(j):
            r = base
            for p, ip, mm in spec:
                r |= ((j >> ip) & mm) << p
            return (r + c) & m

        return idx, n, addr, (tuple(spec), base, c, w)

    def _symload(self, a, n):
        tv = self._table_view(a)
        if tv is None:
            return self.load(self.concretize(a), n)
        idx, nb, addr, shape = tv
        o = self.slots.get(self.val(a) >> 16)
        if o is None:
            return self.load(self.concretize(a), n)
        if self.sched is not None and not o.const:
            self.sched(self, o.base, o.size, 0)
        k2 = ("tvs", shape, o.base, o.size, n)
        inb = self.prog.tabcache.get(k2)
        if inb is None:
            inb = []
            for j in range(1 << nb):
                off = addr(j) - o.base
                inb.append(off if 0 <= off and off + n <= o.size else None)
            inb = tuple(inb)
            self.prog.tabcache[k2] = inb
        if o.const and o.data is not None:
            tab = self.prog.tabcache.get((k2, o.name))
            if tab is not None:
                return tm.tbl(8 * n, tab, idx)
        if None in inb:
            ok = tm.tbl(1, tuple([0 if x is None else 1 for x in inb]), idx)
            if not self.branch(ok):
                # definitely outside on this path: let the concrete access report it
                return self.load(self.concretize(a), n)
        if o.freed or o.cells:
            if o.cells:
                self._spill(o, 0, o.size)
            if o.freed:
                self.event("uaf", "r", o.name, 0, n)
        key = (k2, o.name) if o.const and None not in inb else None
        tab = self.prog.tabcache.get(key) if key else None
        if tab is None:
            vals = []
            for off in inb:
                if off is None:
                    vals.append(0)
                else:
                    vals.append(self.join(self.bytes_at(o.base + off, n)))
            if all(type(x) is int for x in vals):
                tab = tuple(vals)
                if key:
                    self.prog.tabcache[key] = tab
            else:
                r = vals[0]
                for j in range(1, len(vals)):
                    if inb[j] is None:
                        continue
                    r = tm.ite(8 * n, tm.eq(nb, idx, j), vals[j], r)
                return r
        return tm.tbl(8 * n, tab, idx)

    # -------- helpers for libc style builtins

    def memcpy(self, d, s, n):
        n = self.concretize(n)
        d = self.concretize(d)
        if n == 0:
            return
        if type(s) is not int and n <= 16:
            self.put_bytes(d, self.split(self._symload(s, n), n))
            return
        s = self.concretize(s)
        if self.sched is not None:
            self.sched(self, s, n, 0)
            self.sched(self, d, n, 1)
        self.put_bytes(d, list(self.bytes_at(s, n)))

    def memset(self, d, v, n):
        n = self.concretize(n)
        d = self.concretize(d)
        if n:
            if self.sched is not None:
                self.sched(self, d, n, 1)
            self.put_bytes(d, [v] * n)

    def cstr(self, a, limit=4096):
        """concrete NUL-terminated string"""
        out = bytearray()
        a = self.concretize(a)
        while len(out) < limit:
            b = self.concretize(self.bytes_at(a + len(out), 1)[0])
            if b == 0:
                return bytes(out)
            out.append(b)
        raise Unsupported("unterminated string")

    def div(self, f, w, a, b):
        if type(b) is int:
            if b == 0:
                self.event("div0")
                return self.fresh("div0", w)
        elif self.branch(tm.eq(w, b, 0)):
            self.event("div0")
            return self.fresh("div0", w)
        return f(w, a, b)

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit("step limit")


class Result:
    """outcome of exploring one harness"""

    def __init__(self):
        self.paths = 0
        self.transitions = 0
        self.steps = 0
        self.obl = 0
        self.obl_syntactic = 0
        self.violation = None
        self.values = []
        self.unsupported = None
        self.complete = True
        self.doubts = []

    def __repr__(self):
        return "<paths %d obl %d viol %s>" % (self.paths, self.obl, self.violation)


def explore(prog, harness, max_paths=200000, setup=None, stop_on_violation=True, deadline=None, opts=None,
            model=None):
    """Run harness(cx) on every feasible path."""
    housekeeping()
    res = Result()
    work = [([], dict(model or {}))]
    while work:
        if deadline is not None and time.time() > deadline:
            res.complete = False
            break
        dec, mod = work.pop()
        cx = Cx(prog, dec, mod, opts)
        try:
            if prog is not None:
                prog.setup(cx)
            v = harness(cx)
            res.values.append(v)
        except PathEnd:
            pass
        except Violation as e:
            res.violation = e
            if stop_on_violation:
                res.paths += 1
                res.obl += cx.obl
                return res
        res.paths += 1
        res.transitions += max(1, cx.pos)
        res.steps += cx.steps
        res.obl += cx.obl
        res.obl_syntactic += cx.obl_syntactic
        work.extend(cx.alts)
        if res.paths >= max_paths:
            res.complete = False
            break
    return res


def housekeeping():
    """between two explorations: bound the memory used by term caches"""
    if tm.big():
        from . import ircomp, intrinsics
        ircomp._VM.clear()
        for c in intrinsics._CACHES.values():
            c.clear()
        sv.reset()
        tm.reset()


def merge(results):
    """sum of several explorations (stops consuming at the first violation)"""
    tot = Result()
    for r in results:
        tot.paths += r.paths
        tot.transitions += r.transitions
        tot.steps += r.steps
        tot.obl += r.obl
        tot.obl_syntactic += r.obl_syntactic
        tot.values.extend(r.values)
        tot.complete = tot.complete and r.complete
        if r.violation is not None:
            tot.violation = r.violation
            break
    return tot
