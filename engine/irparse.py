"""Parser for the textual LLVM IR that clang/opt 18 print (opaque pointers)."""

import re


class Unsupported(Exception):
    """the encoder does not understand something in the code"""


TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
  | (?P<hex>0x[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
  | (?P<dots>\.\.\.)
  | (?P<punct>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    while i < n:
        c = line[i]
        if c in " \t":
            i += 1
            continue
        if c == ";":
            break
        m = TOK.match(line, i)
        if not m:
            raise Unsupported("token at: " + line[i:i + 40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


def unq(s):
    """decode the escapes of an LLVM string (without its quotes)"""
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf8")
            i += 1
    return bytes(out)


def name_of(tok):
    s = tok[1:]
    if s.startswith('"'):
        s = unq(s[1:-1]).decode("latin1")
    return s


PARAM_ATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "noalias", "signext",
              "zeroext", "returned", "inreg", "immarg", "nest", "noalias", "noext", "swiftself", "nofree",
              "writable", "dead_on_unwind", "allocptr", "inalloca", "local_unnamed_addr", "dso_local",
              "unnamed_addr", "tail", "musttail", "notail", "fastcc", "ccc", "coldcc", "arm_aapcscc",
              "arm_aapcs_vfpcc", "x86_64_sysvcc", "noreturn", "nounwind", "volatile", "inbounds", "hidden",
              "internal", "private", "external", "protected", "default", "weak", "linkonce_odr", "common",
              "available_externally", "linkonce", "weak_odr", "preallocated", "elementtype", "dso_preemptable",
              "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nuw", "nsw", "exact",
              "disjoint", "nneg", "aarch64_vector_pcs", "captures", "samesign"}
PAREN_ATTR = {"align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref", "range",
              "memory", "allocsize", "elementtype", "vscale_range", "alignstack", "captures", "initializes",
              "nofpclass"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("eof", "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def acc(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        t = self.next()
        if t[1] != s:
            raise Unsupported("expected %r, got %r in %r" % (s, t[1], " ".join(x[1] for x in self.t)[:200]))

    def attrs(self):
        """skip attributes; returns dict of interesting ones"""
        got = {}
        while True:
            k, s = self.peek()
            if k == "attr":
                self.i += 1
            elif k == "word" and s in PAREN_ATTR:
                self.i += 1
                if self.peek()[1] == "(":
                    d = 0
                    start = self.i
                    while True:
                        x = self.next()[1]
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                            if d == 0:
                                break
                    got[s] = self.t[start + 1:self.i - 1]
                elif self.peek()[0] == "num":
                    got[s] = int(self.next()[1])
                else:
                    got[s] = True
            elif k == "word" and s in PARAM_ATTR:
                self.i += 1
                got[s] = True
            elif k == "str" and not s.startswith("c"):
                self.i += 1
                if self.acc("="):
                    self.i += 1
            else:
                return got

    # ---- types
    def type(self):
        k, s = self.next()
        if k == "word":
            if s == "ptr":
                r = ("ptr",)
                if self.peek()[1] == "addrspace":
                    self.i += 4
            elif s == "void":
                r = ("void",)
            elif s == "label":
                r = ("label",)
            elif s == "metadata":
                r = ("meta",)
            elif s[0] == "i" and s[1:].isdigit():
                r = ("i", int(s[1:]))
            elif s in ("double", "float", "x86_fp80", "half", "fp128", "bfloat"):
                r = ("fp", s)
            elif s == "token":
                r = ("token",)
            else:
                raise Unsupported("type " + s)
        elif k == "loc":
            r = ("named", name_of(s))
        elif s == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            r = ("arr", n, e)
        elif s == "<":
            if self.peek()[1] == "{":
                self.i += 1
                r = ("struct", tuple(self._types("}")), True)
                self.exp(">")
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                r = ("vec", n, e)
        elif s == "{":
            r = ("struct", tuple(self._types("}")), False)
        else:
            raise Unsupported("type token " + s)
        # function type
        if self.peek()[1] == "(" and r[0] != "label":
            save = self.i
            self.i += 1
            args = []
            ok = True
            va = False
            while not self.acc(")"):
                if self.peek()[0] == "dots":
                    self.i += 1
                    va = True
                else:
                    try:
                        args.append(self.type())
                        self.attrs()
                    except Unsupported:
                        ok = False
                        break
                if not self.acc(",") and self.peek()[1] != ")":
                    ok = False
                    break
            if ok and self.peek()[0] in ("glob", "loc", "word"):
                return ("func", r, tuple(args), va)
            self.i = save
        return r

    def _types(self, end):
        out = []
        while not self.acc(end):
            out.append(self.type())
            self.acc(",")
        return out

    # ---- values
    def typed(self):
        ty = self.type()
        at = self.attrs()
        if ty == ("meta",):
            # metadata operand: skip
            d = 0
            while True:
                s = self.peek()[1]
                if s in ("(", "{"):
                    d += 1
                if s in (")", "}"):
                    if d == 0:
                        break
                    d -= 1
                if s == "," and d == 0:
                    break
                self.i += 1
            return ty, ("undef",), at
        return ty, self.value(ty), at

    def value(self, ty):
        k, s = self.next()
        if k == "loc":
            return ("reg", name_of(s))
        if k == "glob":
            return ("glob", name_of(s))
        if k == "num":
            if ty[0] == "fp":
                return ("fp", s)
            v = int(s)
            return ("int", v & ((1 << ty[1]) - 1))
        if k == "hex":
            return ("fp", s)
        if k == "word":
            if s == "true":
                return ("int", 1)
            if s == "false":
                return ("int", 0)
            if s == "null":
                return ("int", 0)
            if s in ("undef", "poison"):
                return ("undef",)
            if s == "zeroinitializer":
                return ("zero",)
            if s == "none":
                return ("undef",)
            if s == "splat":
                self.exp("(")
                t2, v, _ = self.typed()
                self.exp(")")
                return ("agg", [v] * ty[1])
            if s == "asm":
                fl = []
                while self.peek()[0] == "word":
                    fl.append(self.next()[1])
                a = self.next()[1]
                self.exp(",")
                c = self.next()[1]
                return ("asm", unq(a[1:-1]).decode("latin1"), unq(c[1:-1]).decode("latin1"), tuple(fl))
            if s == "getelementptr":
                while self.peek()[1] in ("inbounds", "inrange", "nuw", "nusw"):
                    self.i += 1
                    if self.peek()[1] == "(" and self.t[self.i - 1][1] == "inrange":
                        while self.next()[1] != ")":
                            pass
                self.exp("(")
                st = self.type()
                self.exp(",")
                idx = []
                while True:
                    self.acc("inrange")
                    t2, v, _ = self.typed()
                    idx.append((t2, v))
                    if not self.acc(","):
                        break
                self.exp(")")
                return ("cgep", st, idx)
            if s in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
                self.exp("(")
                t2, v, _ = self.typed()
                self.exp("to")
                t3 = self.type()
                self.exp(")")
                return ("ccast", s, t2, v, t3)
            if s in ("add", "sub", "xor", "mul", "shl"):
                self.attrs()
                self.exp("(")
                t2, v, _ = self.typed()
                self.exp(",")
                t3, v2, _ = self.typed()
                self.exp(")")
                return ("cbin", s, t2, v, v2)
            raise Unsupported("constant " + s)
        if k == "str" and s.startswith("c"):
            return ("bytes", unq(s[2:-1]))
        if s == "<":
            if self.peek()[1] == "{":
                self.i += 1
                r = self._vals("}")
                self.exp(">")
                return ("agg", r)
            return ("agg", self._vals(">"))
        if s == "[":
            return ("agg", self._vals("]"))
        if s == "{":
            return ("agg", self._vals("}"))
        raise Unsupported("value token %r" % s)

    def _vals(self, end):
        out = []
        while not self.acc(end):
            t, v, _ = self.typed()
            out.append(v)
            self.acc(",")
        return out


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "mod", "internal", "vararg", "byval")


class Glob:
    __slots__ = ("name", "ty", "init", "const", "ext", "internal", "align", "mod", "tls")


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.endian = "little"
        self.ptrbits = 64
        self.i64align = 8
        self.triple = ""
        self.asm = []
        self._parse(text)

    # ---- layout
    def res(self, ty):
        while ty[0] == "named":
            ty = self.types[ty[1]]
        return ty

    def align(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == "i":
            n = (ty[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            if a == 8:
                return self.i64align
            return min(a, 16)
        if k == "ptr":
            return self.ptrbits // 8
        if k == "arr":
            return self.align(ty[2])
        if k == "vec":
            return self.size(ty)
        if k == "struct":
            if ty[2] or not ty[1]:
                return 1
            return max(self.align(t) for t in ty[1])
        if k == "fp":
            return {"float": 4, "double": 8, "x86_fp80": 16}.get(ty[1], 16)
        raise Unsupported("align of %r" % (ty,))

    def size(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == "i":
            n = (ty[1] + 7) // 8
            a = self.align(ty)
            return (n + a - 1) // a * a if n > 1 else 1
        if k == "ptr":
            return self.ptrbits // 8
        if k == "arr":
            return ty[1] * self.size(ty[2])
        if k == "vec":
            e = self.res(ty[2])
            if e[0] == "i" and e[1] < 8:
                return (ty[1] * e[1] + 7) // 8
            return ty[1] * self.size(e)
        if k == "struct":
            off, al = self.fields(ty)
            return off[-1]
        if k == "fp":
            return {"float": 4, "double": 8, "x86_fp80": 16}.get(ty[1], 16)
        raise Unsupported("size of %r" % (ty,))

    def fields(self, ty):
        """(offsets + [total size], alignment)"""
        ty = self.res(ty)
        offs = []
        o = 0
        al = 1
        for t in ty[1]:
            a = 1 if ty[2] else self.align(t)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(t)
        o = (o + al - 1) // al * al
        offs.append(o)
        return offs, al

    # ---- parsing
    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ";":
                continue
            if ln.startswith("target datalayout"):
                self._layout(ln.split('"')[1])
            elif ln.startswith("target triple"):
                self.triple = ln.split('"')[1]
            elif ln.startswith("source_filename"):
                pass
            elif ln.startswith("module asm"):
                self.asm.append(ln)
            elif ln[0] == "%":
                p = P(tokenize(ln), self)
                nm = name_of(p.next()[1])
                p.exp("=")
                p.exp("type")
                if p.peek()[1] == "opaque":
                    continue
                self.types[nm] = p.type()
            elif ln[0] == "@":
                self._global(ln)
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                self.decls.add(name_of(m.group()))
            elif ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self._func(ln, body)

    def _layout(self, s):
        for part in s.split("-"):
            if part == "E":
                self.endian = "big"
            elif part.startswith("p:"):
                self.ptrbits = int(part.split(":")[1])
            elif part.startswith("i64:"):
                self.i64align = int(part.split(":")[1]) // 8
        if "i64:" not in s:
            self.i64align = 4 if self.ptrbits == 32 else 8
        if self.ptrbits == 64:
            self.i64align = 8

    def _global(self, ln):
        p = P(tokenize(ln), self)
        g = Glob()
        g.name = name_of(p.next()[1])
        g.mod = self
        g.ext = g.internal = g.const = g.tls = False
        g.align = 1
        p.exp("=")
        while True:
            k, s = p.peek()
            if s in ("global", "constant"):
                g.const = s == "constant"
                p.next()
                break
            if s in ("external", "extern_weak"):
                g.ext = True
            if s in ("private", "internal"):
                g.internal = True
            if s == "thread_local":
                g.tls = True
            if s in ("alias", "ifunc"):
                raise Unsupported("global alias " + g.name)
            p.next()
            if p.peek()[1] == "(":
                while p.next()[1] != ")":
                    pass
        g.ty = p.type()
        g.init = None
        if not g.ext:
            g.init = p.value(g.ty)
        for j in range(p.i, len(p.t) - 1):
            if p.t[j][1] == "align":
                g.align = int(p.t[j + 1][1])
        self.globals[g.name] = g

    def _func(self, head, body):
        toks = tokenize(head[:head.rindex("{")])
        p = P(toks, self)
        p.exp("define")
        f = Func()
        f.internal = any(t[1] in ("internal", "private") for t in toks[:4])
        p.attrs()
        f.ret = p.type()
        f.name = name_of(p.next()[1])
        f.mod = self
        f.params = []
        f.byval = []
        f.vararg = False
        p.exp("(")
        cnt = 0
        while not p.acc(")"):
            if p.peek()[0] == "dots":
                p.next()
                f.vararg = True
                continue
            ty = p.type()
            at = p.attrs()
            if p.peek()[0] == "loc":
                nm = name_of(p.next()[1])
                if nm.isdigit():
                    cnt = int(nm) + 1
            else:
                nm = str(cnt)
                cnt += 1
            f.params.append((ty, nm))
            if "byval" in at:
                pp = P(at["byval"], self)
                f.byval.append(pp.type())
            else:
                f.byval.append(None)
            p.acc(",")
        # blocks
        blocks = []
        cur = None
        i = 0
        while i < len(body):
            ln = body[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and ln[0] != " ":
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = unq(nm[1:-1]).decode("latin1")
                cur = (nm, [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = (str(cnt), [])
                blocks.append(cur)
            if ln.rstrip().endswith("["):
                while "]" not in body[i]:
                    ln += " " + body[i].strip()
                    i += 1
                ln += " " + body[i].strip()
                i += 1
            cur[1].append(self._inst(ln.strip()))
        f.blocks = blocks
        self.funcs[f.name] = f

    def _inst(self, ln):
        toks = tokenize(ln)
        # drop trailing metadata
        d = 0
        for j, (k, s) in enumerate(toks):
            if s in "([{<" and k == "punct":
                d += 1
            elif s in ")]}>" and k == "punct":
                d -= 1
            elif k == "meta" and d == 0 and toks[j - 1][1] == ",":
                toks = toks[:j - 1]
                break
        p = P(toks, self)
        dst = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            dst = name_of(p.next()[1])
            p.next()
        while p.peek()[1] in ("tail", "musttail", "notail"):
            p.next()
        op = p.next()[1]
        f = getattr(self, "_i_" + op, None)
        if f is not None:
            return f(p, dst)
        if op in BIN:
            p.attrs()
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            b = p.value(ty)
            return ("bin", dst, op, ty, a, b)
        if op in CAST:
            p.attrs()
            ty, v, _ = p.typed()
            p.exp("to")
            return ("cast", dst, op, ty, v, p.type())
        raise Unsupported("instruction " + op)

    def _i_alloca(self, p, dst):
        p.acc("inalloca")
        ty = p.type()
        n = None
        al = 1
        while p.acc(","):
            if p.peek()[1] == "align":
                p.next()
                al = int(p.next()[1])
            elif p.peek()[1] == "addrspace":
                break
            else:
                n = p.typed()[:2]
        return ("alloca", dst, ty, n, al)

    def _memopts(self, p):
        at = p.acc("atomic")
        p.acc("volatile")
        return at

    def _i_load(self, p, dst):
        at = self._memopts(p)
        ty = p.type()
        p.exp(",")
        pt, pv, _ = p.typed()
        return ("load", dst, ty, pv, self._tailalign(p), at)

    def _tailalign(self, p):
        for j in range(p.i, len(p.t) - 1):
            if p.t[j][1] == "align":
                return int(p.t[j + 1][1])
        return 1

    def _i_store(self, p, dst):
        at = self._memopts(p)
        ty, v, _ = p.typed()
        p.exp(",")
        pt, pv, _ = p.typed()
        return ("store", None, ty, v, pv, self._tailalign(p), at)

    def _i_getelementptr(self, p, dst):
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            p.next()
        st = p.type()
        p.exp(",")
        base = p.typed()[:2]
        idx = []
        while p.acc(","):
            idx.append(p.typed()[:2])
        return ("gep", dst, st, base, idx)

    def _i_icmp(self, p, dst):
        p.acc("samesign")
        c = p.next()[1]
        ty = p.type()
        a = p.value(ty)
        p.exp(",")
        b = p.value(ty)
        return ("icmp", dst, c, ty, a, b)

    def _i_select(self, p, dst):
        p.attrs()
        ct, c, _ = p.typed()
        p.exp(",")
        ty, a, _ = p.typed()
        p.exp(",")
        _, b, _ = p.typed()
        return ("select", dst, ct, c, ty, a, b)

    def _i_freeze(self, p, dst):
        ty, a, _ = p.typed()
        return ("freeze", dst, ty, a)

    def _i_phi(self, p, dst):
        p.attrs()
        ty = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(ty)
            p.exp(",")
            b = name_of(p.next()[1])
            p.exp("]")
            inc.append((v, b))
            if not p.acc(","):
                break
        return ("phi", dst, ty, inc)

    def _i_br(self, p, dst):
        if p.acc("label"):
            return ("br", None, name_of(p.next()[1]))
        ty, c, _ = p.typed()
        p.exp(",")
        p.exp("label")
        a = name_of(p.next()[1])
        p.exp(",")
        p.exp("label")
        b = name_of(p.next()[1])
        return ("cbr", None, c, a, b)

    def _i_switch(self, p, dst):
        ty, v, _ = p.typed()
        p.exp(",")
        p.exp("label")
        d = name_of(p.next()[1])
        p.exp("[")
        cases = []
        while not p.acc("]"):
            t2, c, _ = p.typed()
            p.exp(",")
            p.exp("label")
            cases.append((c[1], name_of(p.next()[1])))
        return ("switch", None, ty, v, d, cases)

    def _i_ret(self, p, dst):
        if p.acc("void"):
            return ("ret", None, None, None)
        ty, v, _ = p.typed()
        return ("ret", None, ty, v)

    def _i_unreachable(self, p, dst):
        return ("unreachable", None)

    def _i_fence(self, p, dst):
        return ("fence", None)

    def _i_call(self, p, dst):
        p.attrs()
        rt = p.type()
        fty = None
        if rt[0] == "func":
            fty = rt
            rt = rt[1]
        p.attrs()
        callee = p.value(("ptr",))
        p.exp("(")
        args = []
        while not p.acc(")"):
            ty, v, at = p.typed()
            args.append((ty, v, at.get("byval")))
            p.acc(",")
        return ("call", dst, rt, callee, args)

    def _i_extractvalue(self, p, dst):
        ty, v, _ = p.typed()
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return ("extractvalue", dst, ty, v, idx)

    def _i_insertvalue(self, p, dst):
        ty, v, _ = p.typed()
        p.exp(",")
        t2, e, _ = p.typed()
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return ("insertvalue", dst, ty, v, t2, e, idx)

    def _i_extractelement(self, p, dst):
        ty, v, _ = p.typed()
        p.exp(",")
        t2, i, _ = p.typed()
        return ("extractelement", dst, ty, v, t2, i)

    def _i_insertelement(self, p, dst):
        ty, v, _ = p.typed()
        p.exp(",")
        t1, e, _ = p.typed()
        p.exp(",")
        t2, i, _ = p.typed()
        return ("insertelement", dst, ty, v, t1, e, t2, i)

    def _i_shufflevector(self, p, dst):
        ty, a, _ = p.typed()
        p.exp(",")
        _, b, _ = p.typed()
        p.exp(",")
        mt, m, _ = p.typed()
        return ("shufflevector", dst, ty, a, b, mt, m)

    def _i_cmpxchg(self, p, dst):
        p.acc("weak")
        p.acc("volatile")
        _, pv, _ = p.typed()
        p.exp(",")
        ty, c, _ = p.typed()
        p.exp(",")
        _, n, _ = p.typed()
        return ("cmpxchg", dst, ty, pv, c, n)

    def _i_atomicrmw(self, p, dst):
        p.acc("volatile")
        op = p.next()[1]
        _, pv, _ = p.typed()
        p.exp(",")
        ty, v, _ = p.typed()
        return ("atomicrmw", dst, op, ty, pv, v)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CAST = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"}
