"""Symbolic interpretation of GCC style inline assembly (x86, AArch64, ARM NEON)."""

import re
from . import terms as tm
from .irparse import Unsupported
from . import intrinsics as ix


class Operand:
    __slots__ = ("cls", "early", "out", "inp", "tied", "fixed", "ty")


def parse_constraints(cons):
    outs, ins, clob = [], [], []
    for c in cons.split(","):
        if c.startswith("~"):
            clob.append(c[2:-1])
        elif c.startswith("="):
            outs.append(c)
        else:
            ins.append(c)
    return outs, ins, clob


def lanes_of(ty, mod, prog, v):
    """value -> ('v', byte tuple) or ('g', int)"""
    ty = mod.res(ty)
    if ty[0] == "vec":
        w = ix.width(mod, prog, ty)
        from .ircomp import lane_bitcast
        return ("v", lane_bitcast(v, w, 8, prog.little))
    return ("g", v)


def unlanes(ty, mod, prog, v):
    ty = mod.res(ty)
    if ty[0] == "vec":
        from .ircomp import lane_bitcast
        w = ix.width(mod, prog, ty)
        n = ty[1] * w // 8
        v = tuple(v)[:n]
        if len(v) < n:
            v = v + (0,) * (n - len(v))
        return lane_bitcast(v, 8, w, prog.little)
    w = ix.width(mod, prog, ty)
    return tm.trunc(v, w) if w < prog.ptrbits else v


ESC = re.compile(r"\$\$|\$\{(\d+)(?::(\w+))?\}|\$(\d+)|\$\{:uid\}")


def expand(tmpl, names):
    def rep(m):
        s = m.group()
        if s == "$$":
            return "$"
        if s == "${:uid}":
            return "0uid"
        k = int(m.group(1) if m.group(1) is not None else m.group(3))
        return names(k, m.group(2))
    return ESC.sub(rep, tmpl)


def split_lines(text):
    """[(label or None, mnemonic, [operands])]"""
    out = []
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    for ln in re.split(r"[\n;]", text):
        ln = ln.strip()
        while True:
            m = re.match(r"^([.\w$]+):\s*", ln)
            if not m:
                break
            out.append(("label", m.group(1)))
            ln = ln[m.end():].strip()
        ln = re.split(r"\s//|\s@\s|#\s", ln)[0].strip() if not ln.startswith("#") else ""
        if not ln:
            continue
        m = re.match(r"^(\S+)\s*(.*)$", ln)
        mn, rest = m.group(1), m.group(2).strip()
        if mn.startswith("."):
            if mn in (".balign", ".align", ".p2align", ".arch", ".text", ".fpu"):
                continue
            raise Unsupported("asm directive " + mn)
        out.append(("ins", mn.lower(), split_ops(rest)))
    return out


def split_ops(s):
    ops = []
    d = 0
    cur = ""
    for c in s:
        if c in "([{":
            d += 1
        if c in ")]}":
            d -= 1
        if c == "," and d == 0:
            ops.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        ops.append(cur.strip())
    return ops


def const_expr(s):
    s = s.strip()
    if not re.match(r"^[-+*/()0-9a-fA-Fx\s<>|&~]*$", s) or not s:
        raise Unsupported("asm expression " + s)
    try:
        return eval(s.replace("/", "//"), {"__builtins__": {}})
    except Exception:
        raise Unsupported("asm expression " + s)


BACKWARD = set()          # targets of backward jumps, while a block of code is being prepared


def find_label(code, name, at):
    """index of the target of a jump to `name` from instruction `at`"""
    m = re.match(r"^(\d+)([bf])$", name)
    if m:
        n, d = m.groups()
        rng = range(at, len(code)) if d == "f" else range(at, -1, -1)
    else:
        n = name
        rng = range(len(code))
    for i in rng:
        if code[i][0] == "label" and code[i][1] == n:
            if i <= at:
                BACKWARD.add(i)
            return i
    raise Unsupported("asm label " + name)


def compile_asm(prog, func, tmpl, cons, outty, inty, mod):
    outs, ins, clob = parse_constraints(cons)
    prog.encoded.add(func.name + " [inline asm]")
    if any("*" in c for c in outs + ins):
        raise Unsupported("indirect asm operand")
    otys = []
    if outs:
        otys = list(outty[1]) if outty[0] == "struct" else [outty]
        if len(otys) != len(outs):
            raise Unsupported("asm outputs")
    names = {}
    tied = {}
    inslots = []
    for i in range(len(outs)):
        names[i] = "%%op%d%%" % i
    for j, c in enumerate(ins):
        k = len(outs) + j
        c2 = c.lstrip("%&")
        if c2.isdigit():
            names[k] = names[int(c2)]
            inslots.append(("op", int(c2)))
        else:
            names[k] = "%%op%d%%" % k
            inslots.append(("op", k))
    fixed = {}
    for k, c in enumerate(list(outs) + list(ins)):
        m = re.search(r"\{(\w+)\}", c)
        if m:
            fixed[k] = m.group(1)

    x86 = prog.arch in ("x86_64", "i386", "i686")

    def nm(k, mod_):
        if k in fixed:
            # an operand pinned to a register is that register
            if x86:
                raise Unsupported("asm operand pinned to a register")
            return fixed[k]
        if mod_:
            return names[k][:-1] + ":" + mod_ + "%"
        return names[k]

    if x86 and "pushf" in tmpl and "popf" in tmpl and "200000" in tmpl:
        # the EFLAGS.ID test of <cpuid.h>
        def run_id(cx, *args):
            h = cx.hooks.get("cpuid_supported")
            if h is None:
                raise Unsupported("EFLAGS.ID")
            return tm.zext(h(cx), 1, 32)
        return run_id
    text = expand(tmpl, nm)
    code = split_lines(text)
    arch = prog.arch
    if arch in ("x86_64", "i386", "i686"):
        M = X86
    elif arch == "aarch64":
        M = A64
    elif arch.startswith("arm"):
        M = A32
    else:
        if not code:
            M = X86
        else:
            raise Unsupported("inline asm for " + arch)
    prepared = M.prepare(code)

    def run(cx, *args):
        m = M(cx, prog)
        for i, ty in enumerate(otys):
            t = mod.res(ty)
            if t[0] == "vec":
                nb = t[1] * ix.width(mod, prog, t) // 8
                m.R["op%d" % i] = tuple([tm.var("asmundef_%d_%d" % (i, q), 8) for q in range(nb)])
        for (kind, k), ty, v in zip(inslots, inty, args):
            m.R["op%d" % k] = lanes_of(ty, mod, prog, v)[1]
            if k in fixed:
                m.R[m.canon(fixed[k])] = m.R["op%d" % k]
        m.exec(prepared)
        res = []
        for i, ty in enumerate(otys):
            if i in fixed:
                v = m.R.get(m.canon(fixed[i]))
            else:
                v = m.R.get("op%d" % i)
            if v is None:
                t = mod.res(ty)
                if t[0] == "vec":
                    w = ix.width(mod, prog, t)
                    v = tuple([tm.var("asmundef_%d" % q, 8) for q in range(t[1] * w // 8)])
                else:
                    v = tm.var("asmundef_g", prog.ptrbits)
            res.append(unlanes(ty, mod, prog, v))
        if outty[0] == "struct":
            return tuple(res)
        return res[0] if res else None
    return run


class Machine:
    def __init__(self, cx, prog):
        self.cx = cx
        self.prog = prog
        self.P = prog.ptrbits
        self.R = {}
        self.flags = None      # (w, a, b) of the last compare/sub, lazily interpreted
        self.res = None

    @classmethod
    def prepare(cls, code):
        out = []
        BACKWARD.clear()
        for i, c in enumerate(code):
            if c[0] == "label":
                out.append(None)
                continue
            out.append(cls.decode(c[1], c[2], code, i))
        for i in BACKWARD:
            out[i] = i           # the head of a loop
        return out

    def cut(self, code, at, lp):
        cx = self.cx
        names = tuple(sorted(self.R))
        vals = cx.cut(lp, "asm%d.%d" % (len(code), at), names, tuple([self.R[n] for n in names]), (), lambda: (), (self.P,) * len(names))
        self.R.update(zip(names, vals))
        self.flags = None

    def exec(self, code):
        pc = 0
        lp = None
        if self.prog.cuts is not None and any(type(x) is int for x in code):
            lp = self.cx.activation()
        n = len(code)
        cx = self.cx
        while pc < n:
            ins = code[pc]
            pc += 1
            if ins is None:
                cx.step()
                continue
            if type(ins) is int:
                cx.step()
                if lp is not None:
                    self.cut(code, ins, lp)
                continue
            f, a = ins
            t = f(self, *a)
            if t is not None:
                cx.step()
                pc = t

    @staticmethod
    def canon(r):
        return r

    # flags: carry/zero/sign from subtraction a-b of width w, or from a result
    def fl_sub(self, w, a, b):
        self.flags = ("sub", w, a, b)

    def fl_res(self, w, r):
        self.flags = ("res", w, r)

    def cond(self, c):
        k = self.flags
        if k is None:
            raise Unsupported("flags used before set in asm")
        if k[0] == "sub":
            _, w, a, b = k
            z = tm.eq(w, a, b)
            if c == "e":
                return z
            if c == "l":
                return tm.slt(w, a, b)
            if c == "le":
                return tm.sle(w, a, b)
            if c == "b":
                return tm.ult(w, a, b)
            if c == "be":
                return tm.ule(w, a, b)
            if c == "s":
                return tm.slt(w, tm.sub(w, a, b), 0)
        else:
            _, w, r = k[:3]
            if c == "e":
                return tm.eq(w, r, 0)
            if c == "s":
                return tm.slt(w, r, 0)
            if k[0] == "test":
                if c == "l":
                    return tm.slt(w, r, 0)
                if c == "le":
                    return tm.bor(1, tm.slt(w, r, 0), tm.eq(w, r, 0))
                if c == "b":
                    return 0
                if c == "be":
                    return tm.eq(w, r, 0)
        raise Unsupported("asm condition " + c)


NEG = {"ne": "e", "ge": "l", "g": "le", "ae": "b", "a": "be", "ns": "s", "nz": "e", "nc": "b", "nb": "b",
       "nl": "l", "nle": "le", "nbe": "be", "nae": "ae"}
SYN = {"z": "e", "c": "b", "nae": "b", "nge": "l", "ng": "le", "na": "be"}


def cond_of(c):
    """(base condition, negated)"""
    c = SYN.get(c, c)
    if c in NEG:
        return NEG[c], True
    return c, False


# ------------------------------------------------------------------ x86

GPR = {}
for _i, _n in enumerate(("ax", "cx", "dx", "bx", "sp", "bp", "si", "di")):
    GPR["r" + _n] = (_n, 64)
    GPR["e" + _n] = (_n, 32)
    GPR[_n] = (_n, 16)
for _n in range(8, 16):
    GPR["r%d" % _n] = ("r%d" % _n, 64)
    GPR["r%dd" % _n] = ("r%d" % _n, 32)


def words(v, n):
    """byte lanes -> lanes of n bytes"""
    return tuple([tm.concat([(8, x) for x in reversed(v[i:i + n])]) for i in range(0, len(v), n)])


def unwords(v, n):
    out = []
    for x in v:
        for k in range(n):
            out.append(tm.ext(x, 8 * k + 7, 8 * k) if type(x) is not int else (x >> (8 * k)) & 255)
    return tuple(out)


def lanewise(n, f):
    def g(a, b):
        if n == 1:
            return tuple([f(8, x, y) for x, y in zip(a, b)])
        w = 8 * n
        return unwords([f(w, x, y) for x, y in zip(words(a, n), words(b, n))], n)
    return g


def cmpmask(f):
    def g(w, a, b):
        return tm.sext(f(w, a, b), 1, w)
    return g


# semantic functions of (dest/src1, src2) in Intel order
VOPS = {
    "pshufb": lambda a, b: ix.pshufb(a, b),
    "pand": lanewise(1, tm.band), "por": lanewise(1, tm.bor), "pxor": lanewise(1, tm.bxor),
    "pandn": lanewise(1, lambda w, a, b: tm.band(w, tm.bnot(w, a), b)),
    "pmulhuw": lanewise(2, ix.mulhu), "pmulhw": lanewise(2, ix.mulhs), "pmullw": lanewise(2, tm.mul),
    "psubusb": lanewise(1, ix.usubsat), "psubsb": lanewise(1, ix.ssubsat), "paddusb": lanewise(1, ix.uaddsat),
    "paddsb": lanewise(1, ix.saddsat), "psubusw": lanewise(2, ix.usubsat),
    "pcmpgtb": lanewise(1, cmpmask(lambda w, a, b: tm.slt(w, b, a))),
    "pcmpeqb": lanewise(1, cmpmask(tm.eq)), "pcmpeqd": lanewise(4, cmpmask(tm.eq)),
    "pcmpgtw": lanewise(2, cmpmask(lambda w, a, b: tm.slt(w, b, a))),
    "psubb": lanewise(1, tm.sub), "paddb": lanewise(1, tm.add), "paddw": lanewise(2, tm.add),
    "psubw": lanewise(2, tm.sub), "paddd": lanewise(4, tm.add), "psubd": lanewise(4, tm.sub),
    "pminub": lanewise(1, ix.umin), "pmaxub": lanewise(1, ix.umax),
    "pmaddubsw": lambda a, b: unwords(ix.pmaddubs(a, b), 2),
    "pmaddwd": lambda a, b: unwords(ix.pmaddwd(words(a, 2), words(b, 2)), 4),
}
VOPS["andps"] = VOPS["andpd"] = VOPS["pandd"] = VOPS["pandq"] = VOPS["pand"]
VOPS["orps"] = VOPS["orpd"] = VOPS["por"]
VOPS["xorps"] = VOPS["xorpd"] = VOPS["pxor"]
VMOV = {"movdqa": 1, "movaps": 1, "movapd": 1, "movdqu": 0, "movups": 0, "movupd": 0, "lddqu": 0}
VSHI = {"psrlw": (2, tm.lshr), "psrld": (4, tm.lshr), "psrlq": (8, tm.lshr), "psllw": (2, tm.shl),
        "pslld": (4, tm.shl), "psllq": (8, tm.shl), "psraw": (2, tm.ashr), "psrad": (4, tm.ashr)}


class X86(Machine):
    @staticmethod
    def canon(r):
        r = r.lstrip("%")
        if r in GPR:
            return GPR[r][0]
        m = re.match(r"^[xyz]mm(\d+)$", r)
        if m:
            return "xmm" + m.group(1)
        return r

    # ---- operands: ('r', name, width) ('i', n) ('m', disp, base, index, scale)
    @staticmethod
    def operand(s):
        s = s.strip()
        m = re.match(r"^%(op\d+)(?::(\w+))?%$", s)
        if m:
            w = {"k": 32, "w": 16, "b": 8, "q": 64}.get(m.group(2))
            return ("r", m.group(1), w)
        if s.startswith("$"):
            return ("i", const_expr(s[1:]))
        m = re.match(r"^%(\w+)$", s)
        if m:
            r = m.group(1)
            if r in GPR:
                return ("r", GPR[r][0], GPR[r][1])
            return ("r", X86.canon(r), None)
        m = re.match(r"^(.*)\(([^()]*%[^()]*)\)$", s)
        if m:
            disp = const_expr(m.group(1)) if m.group(1).strip() else 0
            parts = [p.strip() for p in m.group(2).split(",")]
            base = X86.operand(parts[0])[1] if parts[0] else None
            idx = X86.operand(parts[1])[1] if len(parts) > 1 and parts[1] else None
            sc = const_expr(parts[2]) if len(parts) > 2 else 1
            return ("m", disp, base, idx, sc)
        raise Unsupported("asm operand " + s)

    def addr(self, o):
        P = self.P
        a = o[1] & ((1 << P) - 1)
        if o[2]:
            a = tm.add(P, self.get(o[2]), a)
        if o[3]:
            a = tm.add(P, a, tm.mul(P, self.get(o[3]), o[4]))
        return a

    def get(self, r):
        v = self.R.get(r)
        if v is None:
            v = tm.var("asmreg_" + r, self.P)
            self.R[r] = v
        return v

    def gp(self, o, w):
        if o[0] == "i":
            return o[1] & ((1 << w) - 1)
        if o[0] == "r":
            return tm.trunc(self.get(o[1]), w) if w < self.P else self.get(o[1])
        return self.cx.load(self.addr(o), w // 8)

    def setgp(self, o, v, w):
        if o[0] == "m":
            self.cx.store(self.addr(o), v, w // 8)
            return
        if w == self.P:
            self.R[o[1]] = v
        elif w == 32:
            self.R[o[1]] = tm.zext(v, 32, self.P)
        else:
            self.R[o[1]] = tm.concat(((self.P - w, tm.ext(self.get(o[1]), self.P - 1, w)), (w, v)))

    def vec(self, o, n):
        if o[0] == "m":
            return self.cx.loadv(self.addr(o), n, 1)
        v = self.R.get(o[1])
        if v is None or type(v) is not tuple:
            v = tuple([tm.var("asmvreg_%s_%d" % (o[1], i), 8) for i in range(n)])
            self.R[o[1]] = v
        if len(v) < n:
            v = v + (0,) * (n - len(v))
        return v[:n]

    def vwidth(self, ops):
        """vector width in bytes: the widest register among the operands"""
        n = 16
        for o in ops:
            if o[0] == "r":
                v = self.R.get(o[1])
                if type(v) is tuple and len(v) > n:
                    n = len(v)
        return n

    @classmethod
    def decode(cls, mn, ops, code, at):
        if mn in ("lock", "rep", "pause", "nop", "vzeroupper", "endbr64"):
            return (lambda m: None), ()
        if mn == "xgetbv":
            return cls.x_xgetbv, ()
        if mn == "cpuid":
            return cls.x_cpuid, ()
        if mn in ("xchg", "xchgl", "xchgq"):
            a, b = cls.operand(ops[0]), cls.operand(ops[1])
            if a[0] == "r" and b[0] == "r":
                return cls.x_xchg, (a[1], b[1])
        m = re.match(r"^j(\w+)$", mn)
        if m:
            c = m.group(1)
            tgt = ops[0]
            t = find_label(code, tgt, at)
            if c == "mp":
                return (lambda self, t=t: t), ()
            b, neg = cond_of(c)

            def jcc(self, b=b, neg=neg, t=t):
                k = self.cx.branch(self.cond(b))
                return t if bool(k) != neg else None
            return jcc, ()
        O = [cls.operand(o) for o in ops]
        base = mn[1:] if mn.startswith("v") and (mn[1:] in VOPS or mn[1:] in VMOV or mn[1:] in VSHI or mn[1:] in
                                                 ("permd", "ptest")) else mn
        vex = base != mn
        if base in VMOV:
            return cls.x_vmov, (O, VMOV[base], cls.wd(ops))
        if base in VOPS:
            return cls.x_vop, (VOPS[base], O, vex, cls.wd(ops))
        if base in VSHI:
            return cls.x_vshi, (VSHI[base], O, vex, cls.wd(ops))
        if base == "permd":
            return cls.x_permd, (O,)
        s = mn
        suf = {"q": 64, "l": 32, "w": 16, "b": 8}
        known = ("add", "sub", "and", "or", "xor", "mov", "cmp", "test", "lea", "dec", "inc", "shr", "shl", "sar", "neg", "not")
        w = None
        if s not in known and s[-1] in suf and s[:-1] in known:
            w = suf[s[-1]]
            s = s[:-1]
        if s in known:
            if w is None:
                for o in O:
                    if o[0] == "r" and o[2]:
                        w = o[2]
            return getattr(cls, "x_gp"), (s, O, w)
        raise Unsupported("x86 asm instruction " + mn)

    @staticmethod
    def wd(ops):
        for o in ops:
            if o.startswith("%ymm"):
                return 32
            if o.startswith("%xmm"):
                return 16
            if o.startswith("%zmm"):
                return 64
            m = re.match(r"^%op\d+:(\w)%$", o)
            if m and m.group(1) in "xtg":
                return {"x": 16, "t": 32, "g": 64}[m.group(1)]
        return None

    def x_gp(self, s, O, w):
        w = w or self.P
        if s == "lea":
            self.setgp(O[1], self.addr(O[0]), w)
            return
        if s in ("dec", "inc", "neg", "not"):
            a = self.gp(O[0], w)
            if s == "neg":
                r = tm.sub(w, 0, a)
            elif s == "not":
                r = tm.bnot(w, a)
            else:
                r = tm.add(w, a, 1 if s == "inc" else (1 << w) - 1)
            self.setgp(O[0], r, w)
            if s != "not":
                self.fl_res(w, r)
            return
        if s in ("shr", "shl", "sar"):
            if len(O) == 1:
                n, d = 1, O[0]
            else:
                n, d = self.cx.concretize(self.gp(O[0], 8)) & (63 if w == 64 else 31), O[1]
            f = {"shr": tm.lshr, "shl": tm.shl, "sar": tm.ashr}[s]
            r = f(w, self.gp(d, w), n)
            self.setgp(d, r, w)
            self.fl_res(w, r)
            return
        a = self.gp(O[0], w)
        if s == "mov":
            self.setgp(O[1], a, w)
            return
        b = self.gp(O[1], w)
        if s == "cmp":
            self.fl_sub(w, b, a)
        elif s == "test":
            self.flags = ("test", w, tm.band(w, b, a))
        elif s == "sub":
            self.fl_sub(w, b, a)
            self.setgp(O[1], tm.sub(w, b, a), w)
        else:
            f = {"add": tm.add, "and": tm.band, "or": tm.bor, "xor": tm.bxor}[s]
            r = f(w, b, a)
            self.setgp(O[1], r, w)
            if s == "add":
                self.fl_res(w, r)
            else:
                self.flags = ("test", w, r)

    def x_vmov(self, O, aligned, wd):
        n = wd or self.vwidth(O)
        src, dst = O
        for o in O:
            if aligned and o[0] == "m":
                self.cx.chk_align(self.addr(o), n)
        if dst[0] == "m":
            self.cx.storev(self.addr(dst), self.vec(src, n), 1)
        else:
            self.R[dst[1]] = self.vec(src, n)

    def x_vop(self, f, O, vex, wd):
        n = wd or self.vwidth(O)
        if vex or len(O) == 3:
            a, b = self.vec(O[1], n), self.vec(O[0], n)
            d = O[2] if len(O) == 3 else O[1]
        else:
            a, b = self.vec(O[1], n), self.vec(O[0], n)
            d = O[1]
            if O[0][0] == "m":
                self.cx.chk_align(self.addr(O[0]), 16)
        self.R[d[1]] = f(a, b)

    def x_vshi(self, kf, O, vex, wd):
        k, f = kf
        n = wd or self.vwidth(O)
        if O[0][0] == "i":
            sh = O[0][1]
        else:
            sh = self.cx.concretize(tm.concat([(8, x) for x in reversed(self.vec(O[0], 16)[:8])]))
        a = self.vec(O[1], n)
        self.R[O[-1][1]] = unwords([f(8 * k, x, min(sh, 8 * k)) for x in words(a, k)], k)

    def x_permd(self, O):
        # vpermd src(data), idx, dst
        data = words(self.vec(O[0], 32), 4)
        idx = words(self.vec(O[1], 32), 4)
        self.R[O[2][1]] = unwords([ix.select_lane(32, data, tm.trunc(i, 3), 3) for i in idx], 4)

    def x_xchg(self, a, b):
        self.R[a], self.R[b] = self.get(b), self.get(a)

    def x_xgetbv(self):
        h = self.cx.hooks.get("xgetbv")
        if h is None:
            raise Unsupported("xgetbv")
        v = h(self.cx, tm.trunc(self.get("cx"), 32))
        self.R["ax"] = tm.zext(tm.ext(v, 31, 0), 32, self.P)
        self.R["dx"] = tm.zext(tm.ext(v, 63, 32), 32, self.P)

    def x_cpuid(self):
        h = self.cx.hooks.get("cpuid")
        if h is None:
            raise Unsupported("cpuid")
        a, b, c, d = h(self.cx, tm.trunc(self.get("ax"), 32), tm.trunc(self.get("cx"), 32))
        for r, v in (("ax", a), ("bx", b), ("cx", c), ("dx", d)):
            self.R[r] = tm.zext(v, 32, self.P)


# ------------------------------------------------------------------ AArch64

class A64(Machine):
    @staticmethod
    def canon(r):
        m = re.match(r"^[vq](\d+)$", r)
        if m:
            return "v" + m.group(1)
        m = re.match(r"^[xw](\d+)$", r)
        if m:
            return "x" + m.group(1)
        return r

    @staticmethod
    def reg(s):
        """(name, arrangement, width)"""
        s = s.strip()
        m = re.match(r"^%(op\d+)(?::(\w+))?%(?:\.(\w+))?$", s)
        if m:
            return (m.group(1), m.group(3), 32 if m.group(2) == "w" else None)
        m = re.match(r"^[vq](\d+)(?:\.(\w+))?$", s)
        if m:
            return ("v" + m.group(1), m.group(2), None)
        m = re.match(r"^x(\d+)$", s)
        if m:
            return ("x" + m.group(1), None, 64)
        m = re.match(r"^w(\d+)$", s)
        if m:
            return ("x" + m.group(1), None, 32)
        if s in ("xzr", "wzr"):
            return ("zr", None, None)
        raise Unsupported("aarch64 register " + s)

    @classmethod
    def reglist(cls, s):
        s = s.strip()
        if not (s.startswith("{") and s.endswith("}")):
            raise Unsupported("register list " + s)
        s = s[1:-1]
        if "-" in s:
            a, b = [x.strip() for x in s.split("-")]
            m1, m2 = re.match(r"^v(\d+)\.(\w+)$", a), re.match(r"^v(\d+)\.(\w+)$", b)
            if not m1 or not m2:
                raise Unsupported("register list " + s)
            return [("v%d" % (i % 32), m1.group(2), None) for i in range(int(m1.group(1)), int(m2.group(1)) + 1)]
        return [cls.reg(x) for x in s.split(",")]

    @classmethod
    def mem(cls, ops):
        """[base] with optional post index / offset: (base, offset, post, writeback)"""
        s = ops[0].strip()
        wb = s.endswith("!")
        if wb:
            s = s[:-1]
        if not (s.startswith("[") and s.endswith("]")):
            raise Unsupported("address " + s)
        inner = [x.strip() for x in s[1:-1].split(",")]
        base = cls.reg(inner[0])[0]
        off = const_expr(inner[1].lstrip("#")) if len(inner) > 1 else 0
        post = 0
        if len(ops) > 1:
            if not ops[1].startswith("#"):
                raise Unsupported("register post index")
            post = const_expr(ops[1].lstrip("#"))
        return base, off, post, wb

    def get(self, r):
        if r == "zr":
            return 0
        v = self.R.get(r)
        if v is None or type(v) is tuple:
            v = tm.var("asmreg_" + r, self.P)
            self.R[r] = v
        return v

    def vec(self, r):
        v = self.R.get(r)
        if v is None or type(v) is not tuple:
            v = tuple([tm.var("asmvreg_%s_%d" % (r, i), 8) for i in range(16)])
            self.R[r] = v
        return v

    @classmethod
    def imm(cls, s):
        return const_expr(s.strip().lstrip("#"))

    @classmethod
    def decode(cls, mn, ops, code, at):
        if mn in ("nop", "prfm"):
            return (lambda m: None), ()
        m = re.match(r"^(ld|st)([1234])$", mn)
        if m:
            regs = cls.reglist(ops[0])
            return cls.x_ldst, (m.group(1), int(m.group(2)), regs, cls.mem(ops[1:]))
        if mn in ("ldr", "str", "ldur", "stur"):
            raise Unsupported("aarch64 " + mn)
        if mn in ("ushr", "sshr", "shl", "sli", "sri"):
            d, s = cls.reg(ops[0]), cls.reg(ops[1])
            if d[1] is not None:
                return cls.x_vshift, (mn, d, s, cls.imm(ops[2]))
        if mn in ("tbl", "tbx"):
            return cls.x_tbl, (mn, cls.reg(ops[0]), cls.reglist(ops[1]), cls.reg(ops[2]))
        if mn in ("cbz", "cbnz"):
            r = cls.reg(ops[0])
            t = find_label(code, ops[1], at)

            def cb(self, r=r, t=t, z=mn == "cbz"):
                w = r[2] or self.P
                k = self.cx.branch(tm.eq(w, tm.trunc(self.get(r[0]), w), 0))
                return t if bool(k) == z else None
            return cb, ()
        if mn == "b":
            t = find_label(code, ops[0], at)
            return (lambda self, t=t: t), ()
        m = re.match(r"^b\.?(eq|ne|lt|ge|gt|le|lo|hs|hi|ls|cc|cs|mi|pl)$", mn)
        if m:
            t = find_label(code, ops[0], at)
            c = {"eq": ("e", 0), "ne": ("e", 1), "lt": ("l", 0), "ge": ("l", 1), "gt": ("le", 1), "le": ("le", 0),
                 "lo": ("b", 0), "cc": ("b", 0), "hs": ("b", 1), "cs": ("b", 1), "hi": ("be", 1), "ls": ("be", 0),
                 "mi": ("s", 0), "pl": ("s", 1)}[m.group(1)]

            def bc(self, c=c, t=t):
                k = self.cx.branch(self.cond(c[0]))
                return t if bool(k) != bool(c[1]) else None
            return bc, ()
        R = [cls.reg(o) if not o.startswith("#") else None for o in ops]
        vecop = R[0] is not None and R[0][1] is not None
        VO = {"and": tm.band, "orr": tm.bor, "eor": tm.bxor, "add": tm.add, "sub": tm.sub, "uqsub": ix.usubsat,
              "uqadd": ix.uaddsat, "cmhi": lambda w, a, b: tm.sext(tm.ult(w, b, a), 1, w),
              "cmhs": lambda w, a, b: tm.sext(tm.ule(w, b, a), 1, w), "cmeq": cmpmask(tm.eq),
              "bic": lambda w, a, b: tm.band(w, a, tm.bnot(w, b)), "umin": ix.umin, "umax": ix.umax,
              "cmgt": lambda w, a, b: tm.sext(tm.slt(w, b, a), 1, w)}
        if vecop and mn in VO:
            return cls.x_vop, (VO[mn], R)
        if vecop and mn == "mov":
            return (lambda self, d, s: self.R.__setitem__(d[0], self.vec(s[0]))), (R[0], R[1])
        if mn == "movi":
            v = cls.imm(ops[1])
            return (lambda self, d, v: self.R.__setitem__(d[0], (v & 255,) * 16)), (R[0], v)
        if mn in ("add", "sub", "subs", "adds", "cmp", "mov", "and", "orr", "lsr", "lsl", "eor"):
            b = None
            last = ops[-1]
            if last.startswith("#"):
                b = ("i", cls.imm(last))
            else:
                b = ("r", R[-1])
            return cls.x_gp, (mn, R, b)
        raise Unsupported("aarch64 asm instruction " + mn)

    ARR = {"16b": (1, 16), "8b": (1, 8), "8h": (2, 16), "4h": (2, 8), "4s": (4, 16), "2s": (4, 8), "2d": (8, 16)}

    def x_ldst(self, kind, k, regs, mem):
        base, off, post, wb = mem
        es, nb = self.ARR[regs[0][1]]
        a = tm.add(self.P, self.get(base), off & ((1 << self.P) - 1))
        n = len(regs)
        if k != 1 and n != k:
            raise Unsupported("ld/st structure")
        if kind == "ld":
            if k == 1:
                d = self.cx.loadv(a, nb * n, 1)
                for i, r in enumerate(regs):
                    v = d[i * nb:(i + 1) * nb]
                    self.R[r[0]] = v + (0,) * (16 - nb)
            else:
                vs = ix.deinterleave(self.cx, a, k, nb // es, es)
                for r, v in zip(regs, vs):
                    v = unwords(v, es) if es > 1 else tuple(v)
                    self.R[r[0]] = v + (0,) * (16 - nb)
        else:
            if k == 1:
                d = []
                for r in regs:
                    d += list(self.vec(r[0])[:nb])
                self.cx.storev(a, tuple(d), 1)
            else:
                vs = [self.vec(r[0])[:nb] for r in regs]
                if es > 1:
                    vs = [words(v, es) for v in vs]
                ix.interleave(self.cx, a, vs, es)
        if wb:
            self.R[base] = a
        if post:
            self.R[base] = tm.add(self.P, a, post & ((1 << self.P) - 1))

    def x_vshift(self, mn, d, s, n):
        es, nb = self.ARR[s[1]]
        w = 8 * es
        src = self.vec(s[0])[:nb]
        sw = words(src, es)
        if mn in ("sli", "sri"):
            f = ix.sli if mn == "sli" else ix.sri
            dv = words(self.vec(d[0])[:nb], es)
            r = [f(w, x, y, n) for x, y in zip(dv, sw)]
        else:
            f = {"ushr": tm.lshr, "sshr": tm.ashr, "shl": tm.shl}[mn]
            r = [f(w, x, n) for x in sw]
        self.R[d[0]] = unwords(r, es) + (0,) * (16 - nb)

    def x_tbl(self, mn, d, regs, idx):
        lut = ()
        for r in regs:
            lut += tuple(self.vec(r[0]))
        nb = self.ARR[d[1]][1]
        old = self.vec(d[0]) if mn == "tbx" else None
        iv = self.vec(idx[0])
        out = tuple([ix.tbl_lookup(lut, iv[i], old[i] if old else 0) for i in range(nb)])
        self.R[d[0]] = out + (0,) * (16 - nb)

    def x_vop(self, f, R):
        es, nb = self.ARR[R[0][1]]
        a = R[1]
        b = R[2] if len(R) > 2 else R[1]
        av = words(self.vec(a[0])[:nb], es)
        bv = words(self.vec(b[0])[:nb], es)
        self.R[R[0][0]] = unwords([f(8 * es, x, y) for x, y in zip(av, bv)], es) + (0,) * (16 - nb)

    def x_gp(self, mn, R, b):
        w = next((r[2] for r in R if r is not None and r[2]), None) or self.P
        y = b[1] & ((1 << w) - 1) if b[0] == "i" else tm.trunc(self.get(b[1][0]), w)
        if mn == "mov":
            self.R[R[0][0]] = tm.zext(y, w, self.P)
            return
        if mn == "cmp":
            self.fl_sub(w, tm.trunc(self.get(R[0][0]), w), y)
            return
        x = tm.trunc(self.get(R[1][0]), w)
        if mn in ("sub", "subs"):
            r = tm.sub(w, x, y)
            if mn == "subs":
                self.fl_sub(w, x, y)
        elif mn in ("add", "adds"):
            r = tm.add(w, x, y)
            if mn == "adds":
                self.fl_res(w, r)
        elif mn == "and":
            r = tm.band(w, x, y)
        elif mn == "orr":
            r = tm.bor(w, x, y)
        elif mn == "eor":
            r = tm.bxor(w, x, y)
        else:
            r = (tm.lshr if mn == "lsr" else tm.shl)(w, x, self.cx.concretize(y))
        self.R[R[0][0]] = tm.zext(r, w, self.P)


# ------------------------------------------------------------------ ARM (A32) NEON

class A32(Machine):
    """d registers are the storage; q(n) = d(2n), d(2n+1)"""

    @staticmethod
    def canon(r):
        return r

    @staticmethod
    def reg(s):
        s = s.strip()
        m = re.match(r"^%(op\d+)(?::(\w+))?%$", s)
        if m:
            return ("op", m.group(1), m.group(2))
        m = re.match(r"^q(\d+)$", s)
        if m:
            return ("q", int(m.group(1)))
        m = re.match(r"^d(\d+)$", s)
        if m:
            return ("d", int(m.group(1)))
        m = re.match(r"^r(\d+)$", s)
        if m:
            return ("r", "r" + m.group(1))
        raise Unsupported("arm register " + s)

    def vget(self, r):
        if r[0] == "op":
            v = self.R.get(r[1])
            if type(v) is not tuple:
                n = 8 if r[2] == "P" else 16
                v = tuple([tm.var("asmvreg_%s_%d" % (r[1], i), 8) for i in range(n)])
                self.R[r[1]] = v
            if r[2] == "e":
                return v[:8]
            if r[2] == "f":
                return v[8:16]
            return v
        if r[0] == "q":
            return self.dget(2 * r[1]) + self.dget(2 * r[1] + 1)
        return self.dget(r[1])

    def dget(self, n):
        v = self.R.get("d%d" % n)
        if v is None:
            v = tuple([tm.var("asmvreg_d%d_%d" % (n, i), 8) for i in range(8)])
            self.R["d%d" % n] = v
        return v

    def vset(self, r, v):
        v = tuple(v)
        if r[0] == "op":
            if r[2] in ("e", "f"):
                old = self.vget(("op", r[1], "q"))
                v = v + old[8:16] if r[2] == "e" else old[:8] + v
            self.R[r[1]] = v
        elif r[0] == "q":
            self.R["d%d" % (2 * r[1])] = v[:8]
            self.R["d%d" % (2 * r[1] + 1)] = v[8:16]
        else:
            self.R["d%d" % r[1]] = v

    def get(self, r):
        k = r[1]
        v = self.R.get(k)
        if v is None or type(v) is tuple:
            v = tm.var("asmreg_" + k, self.P)
            self.R[k] = v
        return v

    @classmethod
    def reglist(cls, s):
        s = s.strip()
        if s.startswith("{"):
            s = s[1:-1]
        out = []
        for p in s.split(","):
            p = p.strip()
            m = re.match(r"^d(\d+)\s*-\s*d(\d+)$", p)
            if m:
                out += [("d", i) for i in range(int(m.group(1)), int(m.group(2)) + 1)]
            else:
                out.append(cls.reg(p))
        return out

    @classmethod
    def decode(cls, mn, ops, code, at):
        base, _, ty = mn.partition(".")
        es = {"8": 1, "16": 2, "32": 4, "64": 8}.get(ty.lstrip("usif"), 1)
        m = re.match(r"^v(ld|st)([1234])$", base)
        if m:
            regs = cls.reglist(ops[0])
            s = ops[1].strip()
            wb = s.endswith("!")
            if wb:
                s = s[:-1]
            mm = re.match(r"^\[([^:\]]+)(?:\s*:\s*\d+)?\]$", s.replace("@", ":"))
            if not mm:
                raise Unsupported("arm address " + s)
            if len(ops) > 2:
                raise Unsupported("arm post index register")
            return cls.x_ldst, (m.group(1), int(m.group(2)), regs, cls.reg(mm.group(1)), wb, es)
        if base in ("vshr", "vshl", "vsli", "vsri"):
            R = [cls.reg(o) for o in ops[:-1]]
            n = const_expr(ops[-1].lstrip("#"))
            return cls.x_shift, (base, ty, es, R, n)
        if base in ("vtbl", "vtbx"):
            return cls.x_tbl, (base, cls.reg(ops[0]), cls.reglist(ops[1]), cls.reg(ops[2]))
        gt = (lambda w, a, b: tm.sext(tm.ult(w, b, a), 1, w)) if ty.startswith("u") else \
             (lambda w, a, b: tm.sext(tm.slt(w, b, a), 1, w))
        ge = (lambda w, a, b: tm.sext(tm.ule(w, b, a), 1, w)) if ty.startswith("u") else \
             (lambda w, a, b: tm.sext(tm.sle(w, b, a), 1, w))
        VO = {"vand": tm.band, "vorr": tm.bor, "veor": tm.bxor, "vadd": tm.add, "vsub": tm.sub,
              "vqsub": ix.usubsat if ty.startswith("u") else ix.ssubsat,
              "vqadd": ix.uaddsat if ty.startswith("u") else ix.saddsat, "vcgt": gt, "vcge": ge,
              "vceq": cmpmask(tm.eq), "vbic": lambda w, a, b: tm.band(w, a, tm.bnot(w, b)),
              "vmax": ix.umax if ty.startswith("u") else ix.smax, "vmin": ix.umin if ty.startswith("u") else ix.smin}
        if base in VO:
            if base in ("vand", "vorr", "veor", "vbic"):
                es = 1
            R = [cls.reg(o) for o in ops]
            if len(R) == 2:
                R = [R[0], R[0], R[1]]
            return cls.x_vop, (VO[base], es, R)
        if base == "vmov" and len(ops) == 2 and not ops[1].startswith("#"):
            R = [cls.reg(o) for o in ops]
            return (lambda self, d, s: self.vset(d, self.vget(s))), (R[0], R[1])
        if base in ("add", "adds", "sub", "subs") and not ty:
            R = [cls.reg(o) for o in ops if not o.startswith("#")]
            if not ops[-1].startswith("#"):
                raise Unsupported("arm " + mn)
            n = const_expr(ops[-1].lstrip("#"))
            return cls.x_addi, (base, R[0], R[-1], n)
        if base in ("b", "bne", "beq", "bgt", "bge", "blt", "ble", "bhi", "blo", "bhs", "bls", "bcs", "bcc"):
            t = find_label(code, ops[0], at)
            c = {"b": None, "bne": ("e", 1), "beq": ("e", 0), "bgt": ("le", 1), "bge": ("l", 1), "blt": ("l", 0),
                 "ble": ("le", 0), "bhi": ("be", 1), "blo": ("b", 0), "bcc": ("b", 0), "bhs": ("b", 1),
                 "bcs": ("b", 1), "bls": ("be", 0)}[base]

            def bc(self, c=c, t=t):
                if c is None:
                    return t
                k = self.cx.branch(self.cond(c[0]))
                return t if bool(k) != bool(c[1]) else None
            return bc, ()
        if base == "cmp":
            a = cls.reg(ops[0])
            b = ("i", const_expr(ops[1].lstrip("#"))) if ops[1].startswith("#") else cls.reg(ops[1])

            def cmp_(self, a=a, b=b):
                self.fl_sub(32, self.get(a), b[1] & 0xffffffff if b[0] == "i" else self.get(b))
            return cmp_, ()
        if base in ("nop", "pld"):
            return (lambda m: None), ()
        raise Unsupported("arm asm instruction " + mn)

    def x_addi(self, op, d, s, n):
        a = self.get(s)
        if op.startswith("add"):
            r = tm.add(32, a, n)
            if op == "adds":
                self.fl_res(32, r)
        else:
            r = tm.sub(32, a, n)
            if op == "subs":
                self.fl_sub(32, a, n)
        self.R[d[1]] = r

    def x_ldst(self, kind, k, regs, base, wb, es):
        a = self.get(base)
        regs2 = []
        for r in regs:
            if r[0] == "q":
                regs2 += [("d", 2 * r[1]), ("d", 2 * r[1] + 1)]
            elif r[0] == "op" and len(self.vget(r)) == 16:
                regs2 += [("op", r[1], "e"), ("op", r[1], "f")]
            else:
                regs2.append(r)
        regs = regs2
        nb = 8 * len(regs)
        if k != 1 and len(regs) != k:
            raise Unsupported("arm structure load of %d registers" % len(regs))
        if kind == "ld":
            if k == 1:
                d = self.cx.loadv(a, nb, 1)
                for i, r in enumerate(regs):
                    self.vset(r, d[8 * i:8 * i + 8])
            else:
                for r, v in zip(regs, ix.deinterleave(self.cx, a, k, 8 // es, es)):
                    self.vset(r, unwords(v, es) if es > 1 else v)
        else:
            vs = [self.vget(r) for r in regs]
            if k == 1:
                d = ()
                for v in vs:
                    d += tuple(v)
                self.cx.storev(a, d, 1)
            else:
                ix.interleave(self.cx, a, [words(v, es) if es > 1 else v for v in vs], es)
        if wb:
            self.R[base[1]] = tm.add(self.P, a, nb)

    def x_shift(self, base, ty, es, R, n):
        w = 8 * es
        d, s = R[0], R[-1]
        sv = words(self.vget(s), es)
        if base in ("vsli", "vsri"):
            f = ix.sli if base == "vsli" else ix.sri
            dv = words(self.vget(d), es)
            r = [f(w, x, y, n) for x, y in zip(dv, sv)]
        else:
            f = tm.shl if base == "vshl" else (tm.ashr if ty.startswith("s") else tm.lshr)
            r = [f(w, x, n) for x in sv]
        self.vset(d, unwords(r, es))

    def x_tbl(self, mn, d, regs, idx):
        lut = ()
        for r in regs:
            lut += tuple(self.vget(r))
        iv = self.vget(idx)
        old = self.vget(d) if mn == "vtbx" else None
        self.vset(d, [ix.tbl_lookup(lut, x, old[i] if old else 0) for i, x in enumerate(iv)])

    def x_vop(self, f, es, R):
        a, b = words(self.vget(R[1]), es), words(self.vget(R[2]), es)
        self.vset(R[0], unwords([f(8 * es, x, y) for x, y in zip(a, b)], es))
