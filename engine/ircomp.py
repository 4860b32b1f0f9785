"""Compiles parsed LLVM IR to Python functions over the term layer."""

from . import terms as tm
from . import intrinsics
from .core import PathEnd, Violation, Obj, Sparse
from .irparse import Unsupported
from . import asm as asm_mod


class Program:
    """a linked set of modules"""

    def __init__(self, modules, builtins=None, extern_globals=None, name=""):
        self.name = name
        self.modules = modules
        self.ptrbits = modules[0].ptrbits
        self.little = modules[0].endian == "little"
        self.triple = modules[0].triple
        self.arch = self.triple.split("-")[0]
        self.builtins = dict(builtins or {})
        self.tabcache = {}
        self.code = {}
        self.encoded = set()
        self.gaddr = {}
        self.ginfo = {}
        self.gobjs = []
        self.faddr = {}
        self.fbyaddr = {}
        self.nslot = 16
        self.asm_cache = {}
        self.cuts = None         # an engine.induct.Store: generate cut points at loop heads
        self._link(extern_globals or {})

    # ---------------------------------------------------------- linking

    def _fkey(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return (mod.name, name) if f.internal else (None, name)
        return (None, name)

    def _link(self, extern_globals):
        self.funcs = {}
        for m in self.modules:
            for n, f in m.funcs.items():
                key = (m.name, n) if f.internal else (None, n)
                if key in self.funcs:
                    raise Unsupported("duplicate definition of " + n)
                self.funcs[key] = f
        names = set(self.funcs)
        for m in self.modules:
            for n in m.decls:
                names.add((None, n))
        i = 0
        for key in sorted(names, key=lambda k: (k[0] or "", k[1])):
            self.faddr[key] = 0x20000 + 16 * i
            self.fbyaddr[0x20000 + 16 * i] = key
            i += 1
        if i > 4000:
            raise Unsupported("too many functions")
        defs = []
        for m in self.modules:
            for n, g in m.globals.items():
                if g.ext or n.startswith("llvm."):
                    continue
                key = (m.name, n) if g.internal else (None, n)
                size = m.size(g.ty)
                defs.append((key, g, m, size))
                self._place(key, size)
        for n, (size, init) in extern_globals.items():
            if (None, n) not in self.gaddr:
                self._place((None, n), size)
                defs.append(((None, n), None, None, size))
                self.ginfo[(None, n)] = init
        for key, g, m, size in defs:
            if g is not None:
                data = self.const_bytes(m, g.ty, g.init)
                data = (data + [0] * size)[:size]
                const = g.const
            else:
                init = self.ginfo[key]
                data = list(init) if init is not None else [0] * size
                const = False
            o = Obj(self.gaddr[key], size, key[1], "global")
            o.const = const
            o.data = data
            self.gobjs.append((self.gaddr[key] >> 16, o, key))

    def _place(self, key, size):
        if size <= 0x4000:
            self.gaddr[key] = (self.nslot << 16) + 0x8000
            self.nslot += 1
        else:
            self.gaddr[key] = (self.nslot + 1) << 16
            self.nslot += 2 + (size + 0xffff) // 65536

    def setup(self, cx):
        cx.nslot = self.nslot
        for s, o, key in self.gobjs:
            if o.const:
                c = o
            else:
                c = Obj(o.base, o.size, o.name, "global")
                c.data = list(o.data)
                c.shared = True
            if o.size <= 0x4000:
                cx.slots[s] = c
            else:
                for k in range(s - 1, s + 1 + (o.size + 0xffff) // 65536):
                    cx.slots[k] = c

    def global_obj(self, cx, name, mod=None):
        key = (mod, name)
        if key not in self.gaddr:
            for k in self.gaddr:
                if k[1] == name:
                    key = k
        return cx.slots[self.gaddr[key] >> 16]

    def addr_of(self, mod, name):
        g = mod.globals.get(name)
        if g is not None:
            key = (mod.name, name) if (g.internal and not g.ext) else (None, name)
            if key in self.gaddr:
                return self.gaddr[key]
        if (None, name) in self.gaddr:
            return self.gaddr[(None, name)]
        k = self._fkey(mod, name)
        if k in self.faddr:
            return self.faddr[k]
        # undefined external data: an address nothing is mapped at
        if g is not None:
            self._place((None, name), 0x8000)
            return self.gaddr[(None, name)]
        raise Unsupported("undefined symbol " + name)

    # ---------------------------------------------------------- constants

    def const_bytes(self, m, ty, v):
        """byte list of a constant initialiser"""
        ty = m.res(ty)
        n = m.size(ty)
        k = v[0]
        if k == "zero" or k == "undef":
            return [0] * n
        if k == "bytes":
            return list(v[1])
        if ty[0] == "i" or ty[0] == "ptr":
            x = self.const_int(m, ty, v)
            b = [(x >> (8 * i)) & 255 for i in range(n)]
            return b if self.little else b[::-1]
        if ty[0] in ("arr", "vec"):
            out = []
            for e in v[1]:
                out += self.const_bytes(m, ty[2], e)
            return out
        if ty[0] == "struct":
            offs, _ = m.fields(ty)
            out = [0] * n
            for i, (t, e) in enumerate(zip(ty[1], v[1])):
                b = self.const_bytes(m, t, e)
                out[offs[i]:offs[i] + len(b)] = b
            return out
        if ty[0] == "fp":
            return [0] * n
        raise Unsupported("constant of type %r" % (ty,))

    def const_int(self, m, ty, v):
        k = v[0]
        if k == "int":
            return v[1]
        if k == "zero" or k == "undef":
            return 0
        if k == "glob":
            return self.addr_of(m, v[1])
        if k == "cgep":
            _, st, idx = v
            base = self.const_int(m, idx[0][0], idx[0][1])
            off = 0
            t = st
            for j, (it, iv) in enumerate(idx[1:]):
                x = self.const_int(m, it, iv)
                if x >> (it[1] - 1):
                    x -= 1 << it[1]
                if j == 0:
                    off += x * m.size(t)
                else:
                    t = m.res(t)
                    if t[0] == "struct":
                        off += m.fields(t)[0][x]
                        t = t[1][x]
                    else:
                        off += x * m.size(t[2])
                        t = t[2]
            return (base + off) & ((1 << self.ptrbits) - 1)
        if k == "ccast":
            _, op, t2, v2, t3 = v
            x = self.const_int(m, t2, v2)
            w = self.ptrbits if t3[0] == "ptr" else t3[1]
            return x & ((1 << w) - 1)
        if k == "cbin":
            _, op, t2, a, b = v
            w = self.ptrbits if t2[0] == "ptr" else t2[1]
            x, y = self.const_int(m, t2, a), self.const_int(m, t2, b)
            r = {"add": x + y, "sub": x - y, "xor": x ^ y, "mul": x * y, "shl": x << y}[op]
            return r & ((1 << w) - 1)
        raise Unsupported("constant " + k)

    # ---------------------------------------------------------- calling

    def call(self, cx, name, *args):
        return self.getf((None, name))(cx, *args)

    def getf(self, key):
        c = self.code.get(key)
        if c is not None:
            return c
        f = self.funcs.get(key)
        if key[1] in self.builtins and (f is None or key[1] in self.builtins.get("!override", ())):
            c = self.builtins[key[1]]
        elif f is not None:
            c = FuncCompiler(self, f).compile()
            self.encoded.add(key[1])
        else:
            nm = key[1]

            def c(cx, *a):
                raise Unsupported("call to external function " + nm)
        self.code[key] = c
        return c

    def icall(self, cx, addr, *args):
        addr = cx.concretize(addr)
        key = self.fbyaddr.get(addr)
        if key is None:
            cx.event("wildcall", addr)
            raise Violation("call through an invalid function pointer", dict(cx.model), cx)
        return self.getf(key)(cx, *args)

    def fn_addr(self, name):
        return self.faddr.get((None, name))


def lane_bitcast(vals, sw, dw, little):
    """regroup lanes of width sw into lanes of width dw"""
    if sw == dw:
        return vals
    out = []
    if dw < sw:
        n = sw // dw
        rng = range(n) if little else range(n - 1, -1, -1)
        for x in vals:
            for k in rng:
                out.append(tm.ext(x, k * dw + dw - 1, k * dw) if type(x) is not int else (x >> (k * dw)) & ((1 << dw) - 1))
    else:
        n = dw // sw
        for i in range(0, len(vals), n):
            g = vals[i:i + n]
            if little:
                g = g[::-1]
            out.append(tm.concat([(sw, x) for x in g]))
    return tuple(out)


CMP = {"eq": "_eq(%d,%s,%s)", "ne": "_ne(%d,%s,%s)", "ult": "_ult(%d,%s,%s)", "ule": "_ule(%d,%s,%s)",
       "slt": "_slt(%d,%s,%s)", "sle": "_sle(%d,%s,%s)"}
SWAP = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}

BINF = {"add": "_add", "sub": "_sub", "mul": "_mul", "and": "_and", "or": "_or", "xor": "_xor",
        "shl": "_shl", "lshr": "_lshr", "ashr": "_ashr", "udiv": "_udiv", "sdiv": "_sdiv",
        "urem": "_urem", "srem": "_srem"}

NS = {
    "_add": tm.add, "_sub": tm.sub, "_mul": tm.mul, "_and": tm.band, "_or": tm.bor, "_xor": tm.bxor,
    "_shl": tm.shl, "_lshr": tm.lshr, "_ashr": tm.ashr, "_udiv": tm.udiv, "_sdiv": tm.sdiv,
    "_urem": tm.urem, "_srem": tm.srem, "_eq": tm.eq, "_ne": tm.ne, "_ult": tm.ult, "_ule": tm.ule,
    "_slt": tm.slt, "_sle": tm.sle, "_ite": tm.ite, "_ext": tm.ext, "_zext": tm.zext, "_sext": tm.sext,
    "_trunc": tm.trunc, "_var": tm.var, "PathEnd": PathEnd, "Violation": Violation, "_lbc": lane_bitcast, "_concat": tm.concat,
    "Unsupported": Unsupported,
}


def _insval(agg, idx, v):
    t = list(agg)
    t[idx[0]] = v if len(idx) == 1 else _insval(t[idx[0]], idx[1:], v)
    return tuple(t)


NS["_insval"] = _insval

# results of vector operations; paths and lengths repeat them
_VM = {}


def _v2(f, w, a, b):
    k = (f, w, a, b)
    r = _VM.get(k)
    if r is None:
        r = tuple([f(w, x, y) for x, y in zip(a, b)])
        _VM[k] = r
    return r


def _vf(k, f):
    r = _VM.get(k)
    if r is None:
        r = tuple(map(f, *k[2:]))
        _VM[k] = r
    return r


NS["_v2"] = _v2
NS["_vf"] = _vf


# where an instruction carries the type of its result
TYPEAT = {"load": 2, "phi": 2, "bin": 3, "cast": 5, "select": 4, "freeze": 2}


class FuncCompiler:
    def __init__(self, prog, f):
        self.prog = prog
        self.f = f
        self.m = f.mod
        self.P = prog.ptrbits
        self.out = []
        self.ns = dict(NS)
        self.ns["prog"] = prog
        self.ind = 0
        self.nu = 0
        self.names = {}

    def emit(self, s, ind):
        self.out.append("    " * ind + s)

    def reg(self, n):
        r = self.names.get(n)
        if r is None:
            r = "r%d" % len(self.names)
            self.names[n] = r
        return r

    def w(self, ty):
        ty = self.m.res(ty)
        if ty[0] == "i":
            return ty[1]
        if ty[0] == "ptr":
            return self.P
        raise Unsupported("scalar expected: %r" % (ty,))

    def undef(self, ty):
        ty = self.m.res(ty)
        if ty[0] in ("i", "ptr"):
            self.nu += 1
            return "_var('undef_%s_%d',%d)" % (self.f.name, self.nu, self.w(ty))
        if ty[0] in ("vec", "arr"):
            return "(" + "".join(self.undef(ty[2]) + "," for _ in range(ty[1])) + ")"
        if ty[0] == "struct":
            return "(" + "".join(self.undef(t) + "," for t in ty[1]) + ")"
        return "None"

    def K(self, ty, v):
        ty = self.m.res(ty)
        k = v[0]
        if k == "reg":
            return self.reg(v[1])
        if k == "undef":
            return self.undef(ty)
        if ty[0] in ("i", "ptr"):
            return str(self.prog.const_int(self.m, ty, v))
        if ty[0] in ("vec", "arr"):
            if k == "zero":
                return "(" + (self.K(ty[2], ("zero",)) + ",") * ty[1] + ")"
            if k == "bytes":
                return "(" + "".join("%d," % b for b in v[1]) + ")"
            return "(" + "".join(self.K(ty[2], e) + "," for e in v[1]) + ")"
        if ty[0] == "struct":
            if k == "zero":
                return "(" + "".join(self.K(t, ("zero",)) + "," for t in ty[1]) + ")"
            return "(" + "".join(self.K(t, e) + "," for t, e in zip(ty[1], v[1])) + ")"
        if ty[0] == "fp":
            raise Unsupported("floating point")
        raise Unsupported("operand %r" % (v,))

    # ---- loads/stores by type (expression / statements)
    def ld(self, ty, a, al=1):
        ty = self.m.res(ty)
        if ty[0] in ("i", "ptr"):
            w = self.w(ty)
            n = (w + 7) // 8
            if w % 8:
                return "_trunc(cx.load(%s,%d),%d)" % (a, n, w)
            return "cx.load(%s,%d)" % (a, n)
        if ty[0] == "vec":
            ew = self.w(ty[2])
            if ew % 8:
                raise Unsupported("vector of i%d in memory" % ew)
            return "cx.loadv(%s,%d,%d)" % (a, ty[1], ew // 8)
        if ty[0] == "arr":
            es = self.m.size(ty[2])
            return "(" + "".join(self.ld(ty[2], "_add(%d,%s,%d)" % (self.P, a, i * es)) + "," for i in range(ty[1])) + ")"
        if ty[0] == "struct":
            offs, _ = self.m.fields(ty)
            return "(" + "".join(self.ld(t, "_add(%d,%s,%d)" % (self.P, a, offs[i])) + "," for i, t in enumerate(ty[1])) + ")"
        raise Unsupported("load of %r" % (ty,))

    def st(self, ty, a, v):
        ty = self.m.res(ty)
        if ty[0] in ("i", "ptr"):
            w = self.w(ty)
            n = (w + 7) // 8
            if w % 8:
                v = "_zext(%s,%d,%d)" % (v, w, 8 * n)
            return ["cx.store(%s,%s,%d)" % (a, v, n)]
        if ty[0] == "vec":
            ew = self.w(ty[2])
            if ew % 8:
                raise Unsupported("vector of i%d in memory" % ew)
            return ["cx.storev(%s,%s,%d)" % (a, v, ew // 8)]
        out = []
        if ty[0] == "arr":
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                out += self.st(ty[2], "_add(%d,%s,%d)" % (self.P, a, i * es), "%s[%d]" % (v, i))
            return out
        if ty[0] == "struct":
            offs, _ = self.m.fields(ty)
            for i, t in enumerate(ty[1]):
                out += self.st(t, "_add(%d,%s,%d)" % (self.P, a, offs[i]), "%s[%d]" % (v, i))
            return out
        raise Unsupported("store of %r" % (ty,))

    # ---- main
    def compile(self):
        f = self.f
        idx = {b[0]: i for i, b in enumerate(f.blocks)}
        self.idx = idx
        self.phis = {}
        for nm, ins in f.blocks:
            ph = [x for x in ins if x[0] == "phi"]
            self.phis[nm] = ph
        params = []
        pre = []
        for (ty, nm), bv in zip(f.params, f.byval):
            params.append(self.reg(nm))
            if bv is not None:
                sz = self.m.size(bv)
                r = self.reg(nm)
                pre.append("_o = cx.alloc(%d,'byval',kind='stack'); cx.memcpy(_o.base,%s,%d); %s = _o.base" % (sz, r, sz, r))
        self.emit("def fn(cx%s%s):" % ("".join(", " + p for p in params), ", *va" if f.vararg else ""), 0)
        for s in pre:
            self.emit(s, 1)
        self.cutinfo = {}
        if self.prog.cuts is not None:
            self._findcuts()
        self.emit("b = 0", 1)
        self.emit("while True:", 1)
        self.emit("cx.step()", 2)
        self._dispatch(0, len(f.blocks), 2)
        src = "\n".join(self.out) + "\n"
        code = compile(src, "<ir:%s>" % f.name, "exec")
        exec(code, self.ns)
        fn = self.ns["fn"]
        fn.__name__ = "ir_" + "".join(c if c.isalnum() else "_" for c in f.name)
        fn.ir_src = src
        return fn

    def _dispatch(self, lo, hi, ind):
        if hi - lo == 1:
            self._block(self.f.blocks[lo], ind)
            return
        mid = (lo + hi) // 2
        self.emit("if b < %d:" % mid, ind)
        self._dispatch(lo, mid, ind + 1)
        self.emit("else:", ind)
        self._dispatch(mid, hi, ind + 1)

    def _goto(self, frm, to, ind):
        ph = self.phis[to]
        if ph:
            dst = []
            src = []
            for p in ph:
                for v, b in p[3]:
                    if b == frm:
                        s = self.K(p[2], v)
                        d = self.reg(p[1])
                        if s != d:
                            dst.append(d)
                            src.append(s)
                        break
                else:
                    raise Unsupported("phi without edge")
            if dst:
                self.emit("%s = %s" % (", ".join(dst), ", ".join(src)), ind)
        self.emit("b = %d" % self.idx[to], ind)
        self.emit("continue", ind)

    def _regwidth(self, ty):
        """width of a register in bits, of an element for vectors (in a tuple), None if unknown"""
        if ty is None:
            return None
        ty = self.m.res(ty)
        if ty[0] in ("i", "ptr"):
            return self.w(ty)
        if ty[0] == "vec":
            return (self.w(ty[2]),)
        return None

    def _findcuts(self):
        """blocks that are entered by a retreating edge, and the registers alive there"""
        f = self.f
        succ = {}
        uses, defs, types = {}, {}, {}

        def regs(x, out):
            if type(x) is tuple or type(x) is list:
                if len(x) == 2 and x[0] == "reg" and type(x[1]) is str:
                    out.add(x[1])
                else:
                    for y in x:
                        regs(y, out)
        phiuse = {}
        for nm, ins in f.blocks:
            u, d = set(), set()
            s = []
            for x in ins:
                if x[0] in TYPEAT and type(x[1]) is str:
                    types[x[1]] = x[TYPEAT[x[0]]]
                if x[0] == "phi":
                    for v, b in x[3]:
                        if v[0] == "reg":
                            phiuse.setdefault((b, nm), set()).add(v[1])
                    d.add(x[1])
                    continue
                w = set()
                regs(x[2:] if len(x) > 2 else (), w)
                u |= w - d
                if type(x[1]) is str and x[0] not in ("br", "cbr", "switch", "ret"):
                    d.add(x[1])
                if x[0] == "br":
                    s = [x[2]]
                elif x[0] == "cbr":
                    s = [x[3], x[4]]
                elif x[0] == "switch":
                    s = [x[4]] + [c[1] for c in x[5]]
            succ[nm], uses[nm], defs[nm] = s, u, d
        first = f.blocks[0][0]
        color = {first: 1}
        heads = []
        st = [(first, iter(succ[first]))]
        while st:
            n, it = st[-1]
            for m in it:
                c = color.get(m)
                if c is None:
                    color[m] = 1
                    st.append((m, iter(succ[m])))
                    break
                if c == 1 and m not in heads:
                    heads.append(m)
            else:
                color[n] = 2
                st.pop()
        if not heads:
            return
        live = {n: set() for n in succ}
        while True:
            ch = False
            for nm, _ in reversed(f.blocks):
                o = set()
                for m in succ[nm]:
                    o |= live[m] - {p[1] for p in self.phis[m]}
                    o |= phiuse.get((nm, m), set())
                n = uses[nm] | (o - defs[nm])
                # a phi's own register is defined on entry of the block
                if n != live[nm]:
                    live[nm] = n
                    ch = True
            if not ch:
                break
        reach = {}
        for n in succ:
            seen = set()
            w = list(succ[n])
            while w:
                m = w.pop()
                if m not in seen:
                    seen.add(m)
                    w.extend(succ[m])
            reach[n] = seen
        for h in heads:
            scc = {m for m in reach[h] if h in reach[m]} | {h}
            inner = set()
            for m in scc:
                inner |= defs[m]
            ph = [p[1] for p in self.phis[h]]
            extra = sorted(r for r in live[h] if r in inner and r not in ph)
            inv = sorted(r for r in live[h] if r not in inner and r not in ph)
            self.cutinfo[h] = (ph + extra, inv, tuple([self._regwidth(types.get(r)) for r in ph + extra]))
            for r in extra:
                self.emit("%s = None" % self.reg(r), 1)
        self.emit("lp = cx.activation()", 1)

    def _block(self, blk, ind):
        nm, ins = blk
        ci = self.cutinfo.get(nm)
        if ci is not None:
            vs = "".join(self.reg(r) + "," for r in ci[0])
            self.emit("%s cx.cut(lp,%r,%r,(%s),%r,lambda: (%s),%r)" % (
                "(%s) =" % vs if vs else "", "%s/%s" % (self.f.name, nm), tuple(ci[0]), vs, tuple(ci[1]),
                "".join(self.reg(r) + "," for r in ci[1]), ci[2]), ind)
        for x in ins:
            try:
                self._inst(nm, x, ind)
            except Unsupported as e:
                # only an error when reached
                self.emit("raise Unsupported(%r)" % str(e), ind)
                return

    def _inst(self, nm, x, ind):
        op = x[0]
        e = self.emit
        K = self.K
        if op == "phi":
            return
        if op == "bin":
            _, d, o, ty, a, b = x
            f = BINF[o]
            ty = self.m.res(ty)
            if ty[0] == "vec":
                w = self.w(ty[2])
                e("%s = _v2(%s,%d,%s,%s)" % (self.reg(d), f, w, K(ty, a), K(ty, b)), ind)
            elif o in ("udiv", "sdiv", "urem", "srem"):
                e("%s = cx.div(%s,%d,%s,%s)" % (self.reg(d), f, self.w(ty), K(ty, a), K(ty, b)), ind)
            else:
                e("%s = %s(%d,%s,%s)" % (self.reg(d), f, self.w(ty), K(ty, a), K(ty, b)), ind)
        elif op == "load":
            _, d, ty, a, al, at = x
            A = K(("ptr",), a)
            if self.m.res(ty)[0] == "vec" and al > 1:
                e("cx.chk_align(%s,%d)" % (A, al), ind)
            e("%s = %s" % (self.reg(d), self.ld(ty, A)), ind)
        elif op == "store":
            _, d, ty, v, a, al, at = x
            A = K(("ptr",), a)
            V = K(ty, v)
            if self.m.res(ty)[0] == "vec" and al > 1:
                e("cx.chk_align(%s,%d)" % (A, al), ind)
            for s in self.st(ty, A, V):
                e(s, ind)
        elif op == "alloca":
            _, d, ty, n, al = x
            sz = self.m.size(ty)
            N = "%d" % sz if n is None else "cx.concretize(_mul(%d,%s,%d))" % (self.w(n[0]), K(n[0], n[1]), sz)
            e("%s = cx.alloc(%s,%r,kind='stack').base" % (self.reg(d), N, "%s.%s" % (self.f.name, d)), ind)
        elif op == "gep":
            self._gep(x, ind)
        elif op == "icmp":
            _, d, c, ty, a, b = x
            if c in SWAP:
                c = SWAP[c]
                a, b = b, a
            ty = self.m.res(ty)
            if ty[0] == "vec":
                w = self.w(ty[2])
                e("%s = _vf((%r,%d,%s,%s),lambda x,y: %s)" % (self.reg(d), c, w, K(ty, a), K(ty, b), CMP[c] % (w, "x", "y")), ind)
            else:
                e("%s = %s" % (self.reg(d), CMP[c] % (self.w(ty), K(ty, a), K(ty, b))), ind)
        elif op == "select":
            _, d, ct, c, ty, a, b = x
            ty = self.m.res(ty)
            ct = self.m.res(ct)
            C = K(ct, c)
            if ct[0] == "vec":
                w = self.w(ty[2])
                e("%s = _vf(('sel',%d,%s,%s,%s),lambda c,x,y: _ite(%d,c,x,y))" % (self.reg(d), w, C, K(ty, a), K(ty, b), w), ind)
            elif ty[0] == "vec":
                w = self.w(ty[2])
                e("%s = tuple([_ite(%d,%s,x,y) for x,y in zip(%s,%s)])" % (self.reg(d), w, C, K(ty, a), K(ty, b)), ind)
            elif ty[0] in ("i", "ptr"):
                e("%s = _ite(%d,%s,%s,%s)" % (self.reg(d), self.w(ty), C, K(ty, a), K(ty, b)), ind)
            else:
                e("%s = %s if cx.branch(%s) else %s" % (self.reg(d), K(ty, a), C, K(ty, b)), ind)
        elif op == "freeze":
            _, d, ty, a = x
            e("%s = %s" % (self.reg(d), K(ty, a)), ind)
        elif op == "cast":
            self._cast(x, ind)
        elif op == "br":
            self._goto(nm, x[2], ind)
        elif op == "cbr":
            _, _, c, a, b = x
            e("if cx.branch(%s):" % K(("i", 1), c), ind)
            self._goto(nm, a, ind + 1)
            self._goto(nm, b, ind)
        elif op == "switch":
            _, _, ty, v, d, cases = x
            w = self.w(ty)
            V = K(ty, v)
            for c, t in cases:
                e("if cx.branch(_eq(%d,%s,%d)):" % (w, V, c), ind)
                self._goto(nm, t, ind + 1)
            self._goto(nm, d, ind)
        elif op == "ret":
            if x[2] is None:
                e("return None", ind)
            else:
                e("return %s" % K(x[2], x[3]), ind)
        elif op == "unreachable":
            e("raise Violation('undefined behaviour: unreachable code reached', dict(cx.model), cx)", ind)
        elif op == "fence":
            e("pass", ind)
        elif op == "call":
            self._call(x, ind)
        elif op == "extractvalue":
            _, d, ty, v, idx = x
            e("%s = %s%s" % (self.reg(d), K(ty, v), "".join("[%d]" % i for i in idx)), ind)
        elif op == "insertvalue":
            _, d, ty, v, t2, ev, idx = x
            e("%s = _insval(%s, %s, %s)" % (self.reg(d), K(ty, v), tuple(idx), K(t2, ev)), ind)
        elif op == "extractelement":
            _, d, ty, v, t2, i = x
            if i[0] == "int":
                e("%s = %s[%d]" % (self.reg(d), K(ty, v), i[1]), ind)
            else:
                e("%s = %s[cx.concretize(%s)]" % (self.reg(d), K(ty, v), K(t2, i)), ind)
        elif op == "insertelement":
            _, d, ty, v, t1, ev, t2, i = x
            e("_t = list(%s); _t[cx.concretize(%s)] = %s; %s = tuple(_t)" % (K(ty, v), K(t2, i), K(t1, ev), self.reg(d)), ind)
        elif op == "shufflevector":
            _, d, ty, a, b, mt, mask = x
            ty = self.m.res(ty)
            n = ty[1]
            if mask[0] == "zero":
                ms = [0] * self.m.res(mt)[1]
            elif mask[0] == "undef":
                ms = [None] * self.m.res(mt)[1]
            else:
                ms = [None if q[0] == "undef" else q[1] for q in mask[1]]
            A, B = K(ty, a), K(ty, b)
            need_b = any(q is not None and q >= n for q in ms)
            if not A.startswith("r"):
                e("_a = %s" % A, ind)
                A = "_a"
            if need_b and not B.startswith("r"):
                e("_b = %s" % B, ind)
                B = "_b"
            parts = []
            for q in ms:
                if q is None:
                    parts.append(self.undef(ty[2]))
                elif q < n:
                    parts.append("%s[%d]" % (A, q))
                else:
                    parts.append("%s[%d]" % (B, q - n))
            e("%s = (%s,)" % (self.reg(d), ",".join(parts)), ind)
        elif op == "cmpxchg":
            _, d, ty, pv, c, n = x
            w = self.w(ty)
            A = K(("ptr",), pv)
            e("_o = cx.load(%s,%d)" % (A, w // 8), ind)
            e("_s = cx.branch(_eq(%d,_o,%s))" % (w, K(ty, c)), ind)
            e("if _s: cx.store(%s,%s,%d)" % (A, K(ty, n), w // 8), ind)
            e("%s = (_o,_s)" % self.reg(d), ind)
        elif op == "atomicrmw":
            _, d, o, ty, pv, v = x
            w = self.w(ty)
            A = K(("ptr",), pv)
            e("_o = cx.load(%s,%d)" % (A, w // 8), ind)
            if o == "xchg":
                nv = K(ty, v)
            elif o in BINF:
                nv = "%s(%d,_o,%s)" % (BINF[o], w, K(ty, v))
            else:
                raise Unsupported("atomicrmw " + o)
            e("cx.store(%s,%s,%d)" % (A, nv, w // 8), ind)
            e("%s = _o" % self.reg(d), ind)
        else:
            raise Unsupported("instruction " + op)

    def _gep(self, x, ind):
        _, d, st, base, idx = x
        if self.m.res(base[0])[0] == "vec":
            raise Unsupported("vector gep")
        expr = self.K(base[0], base[1])
        const = 0
        t = st
        P = self.P
        for j, (it, iv) in enumerate(idx):
            it = self.m.res(it)
            if it[0] == "vec":
                raise Unsupported("vector gep")
            if j == 0:
                scale = self.m.size(t)
            else:
                t = self.m.res(t)
                if t[0] == "struct":
                    k = self.prog.const_int(self.m, it, iv)
                    const += self.m.fields(t)[0][k]
                    t = t[1][k]
                    continue
                t = t[2]
                scale = self.m.size(t)
            if iv[0] == "reg":
                v = self.reg(iv[1])
                if it[1] < P:
                    v = "_sext(%s,%d,%d)" % (v, it[1], P)
                elif it[1] > P:
                    v = "_trunc(%s,%d)" % (v, P)
                if scale != 1:
                    v = "_mul(%d,%s,%d)" % (P, v, scale)
                expr = "_add(%d,%s,%s)" % (P, expr, v)
            else:
                k = self.prog.const_int(self.m, it, iv)
                if k >> (it[1] - 1):
                    k -= 1 << it[1]
                const += k * scale
        const &= (1 << P) - 1
        if const:
            expr = "_add(%d,%s,%d)" % (P, expr, const)
        self.emit("%s = %s" % (self.reg(d), expr), ind)

    def _cast(self, x, ind):
        _, d, op, ty, v, to = x
        e = self.emit
        ty = self.m.res(ty)
        to = self.m.res(to)
        V = self.K(ty, v)
        D = self.reg(d)
        if op in ("trunc", "zext", "sext"):
            if ty[0] == "vec":
                a, b = self.w(ty[2]), self.w(to[2])
                if op == "trunc":
                    e("%s = _vf(('trunc',%d,%s),lambda x: _trunc(x,%d))" % (D, a * 100 + b, V, b), ind)
                else:
                    e("%s = _vf((%r,%d,%s),lambda x: _%s(x,%d,%d))" % (D, op, a * 100 + b, V, op, a, b), ind)
            elif op == "trunc":
                e("%s = _trunc(%s,%d)" % (D, V, self.w(to)), ind)
            else:
                e("%s = _%s(%s,%d,%d)" % (D, op, V, self.w(ty), self.w(to)), ind)
        elif op in ("ptrtoint", "inttoptr"):
            a, b = self.w(ty), self.w(to)
            if a == b:
                e("%s = %s" % (D, V), ind)
            elif a > b:
                e("%s = _trunc(%s,%d)" % (D, V, b), ind)
            else:
                e("%s = _zext(%s,%d,%d)" % (D, V, a, b), ind)
        else:
            if ty[0] == "vec":
                sw, n = self.w(ty[2]), ty[1]
            else:
                sw, n = self.w(ty), 1
                V = "(%s,)" % V
            little = self.prog.little
            if to[0] == "vec":
                e("%s = _lbc(%s,%d,%d,%r)" % (D, V, sw, self.w(to[2]), little), ind)
            else:
                e("%s = _lbc(%s,%d,%d,%r)[0]" % (D, V, sw, self.w(to), little), ind)

    def _call(self, x, ind):
        _, d, rt, callee, args = x
        e = self.emit
        D = (self.reg(d) + " = ") if d is not None else ""
        if callee[0] == "asm":
            A = [self.K(t, v) for t, v, _ in args]
            outs = self.m.res(rt)
            fn = asm_mod.compile_asm(self.prog, self.f, callee[1], callee[2], outs, [self.m.res(t) for t, _, _ in args], self.m)
            nm = "asm%d" % len(self.ns)
            self.ns[nm] = fn
            e("%s%s(cx%s)" % (D, nm, "".join(", " + a for a in A)), ind)
            return
        if callee[0] == "glob":
            n = callee[1]
            if n.startswith("llvm."):
                if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.donothing", "llvm.experimental.noalias",
                                 "llvm.prefetch", "llvm.va_end")):
                    return
                fn = intrinsics.find(n)
                if fn is None:
                    e("raise Unsupported(%r)" % ("intrinsic " + n), ind)
                    if d is not None:
                        e("%s = None" % self.reg(d), ind)
                    return
                A = [self.K(t, v) for t, v, _ in args]
                rts = self.m.res(rt)
                ats = tuple(self.m.res(t) for t, _, _ in args)
                nm = "intr%d" % len(self.ns)
                self.ns[nm] = intrinsics.bind(fn, n, rts, ats, self.m, self.prog)
                e("%s%s(cx%s)" % (D, nm, "".join(", " + a for a in A)), ind)
                return
            A = []
            for t, v, bv in args:
                A.append(self.K(t, v))
            key = self.prog._fkey(self.m, n)
            nm = "f%d" % len(self.ns)
            getf = self.prog.getf
            self.ns[nm] = (lambda key: (lambda cx, *a: getf(key)(cx, *a)))(key)
            e("%s%s(cx%s)" % (D, nm, "".join(", " + a for a in A)), ind)
            return
        A = [self.K(t, v) for t, v, _ in args]
        e("%sprog.icall(cx,%s%s)" % (D, self.K(("ptr",), callee), "".join(", " + a for a in A)), ind)
