"""C18  bin/base64 obeys its options and rejects bad ones: whole runs with symbolic command lines."""

import os
import random
from engine import build, core, terms as tm
from . import cli, spec
from .cli import confirm, make
from .frame import Task
from .memlib import prove_clean

ASSUMPTIONS = ["getopt_long is glibc's (a C model of it is executed; compared with the real tool on sample command lines every run); POSIXLY_CORRECT unset",
               "a wrap value with leading white space or '+', a negative zero and a value beyond LONG_MAX may be accepted or rejected",
               "the input contents are concrete: they tell the modes, filters and widths apart", "clang's IR semantics; z3"]
BOUNDS = {}
DATA = [(b"QUI\nDQQ==\n", b"Qk\nJC"), (b"QUID*QQ==", b"QkJC-\n")]
LONG = ("decode", "help", "ignore-garbage", "no-strip-newlines", "wrap")


def variants(tier):
    return [cli.conf("x64", 6), cli.conf("i686", 64)] + ([] if tier == "quick" else [cli.conf("s390x", 5, iov=3), cli.conf("x64", 3, emul=True)])


def configs(tier):
    for n in variants(tier):
        BOUNDS[n] = "command lines of the listed shapes ('?' is any non-zero byte, '#' any digit): %s" % "; ".join(" ".join(s) for s in shapes(tier)[:60])
    return {n: {} for n in variants(tier)}


def shapes(tier):
    s = [(), ("",), ("?",), ("??",), ("???",), ("????",), ("??", "??"), ("-?", "???"), ("???", "-?"), ("?", "??"), ("??", "?"), ("", "??"),
         ("-?", "-?", "-?"), ("??", "??", "??"), ("-?", "-?", "?", "-?"), ("?", "?", "?"), ("-d?", "f", "-?"), ("f", "-d?"), ("-di", "-?", "f"),
         ("f", "f"), ("f", "-"), ("-", "-"), ("-d", "f", "--"), ("--", "-d"), ("-d", "--", "-?"), ("-?", "--", "??"), ("--", "??", "?"),
         ("-w", "???"), ("-w???",), ("-w", "-?"), ("-w", "##?"), ("-d", "-w", "??"), ("-w?", "-w?"), ("-dw", "?"), ("-dw?",), ("-w", "?", "f"),
         ("-w",), ("-dw",), ("--wrap",), ("--wrap=",), ("--wrap=???",), ("--wrap=###",), ("-w###", "?"), ("--wrap", "??"), ("--wra?=?",), ("--w=??",), ("--w", "?", "?"),
         ("--wrap=#", "--decod?"), ("f", "--wrap"), ("f", "-w"), ("-h", "??"), ("??", "-h"), ("--help", "?"), ("x", "-h"), ("-w", "x", "-h"),
         ("-n", "-i", "--decode", "?"), ("-d", "--ignore", "f"), ("-dn", "f"), ("-d?n",), ("-?di",)]
    for k in (1, 2, 3):
        s.append(("--" + "?" * k,))
    for n in LONG:
        for i in range(len(n)):
            s.append(("--" + n[:i] + "?" + n[i + 1:],))
            if i % 3 == 0:
                s.append(("--" + n[:i] + "??",))
        s.append(("--" + n + "?",))
        s.append(("--" + n + "=?",))
        s.append(("-d", "--" + n[:2] + "=?"))
        if n != "wrap":
            s += [("--" + n, "-?"), ("-d", "--" + n, "?"), ("?", "--" + n[:1])]
    for k in (9, 10, 11, 17, 18, 19, 20, 21):
        s += [("-w", "#" + "0" * (k - 2) + "#"), ("-w", "9" * (k - 1) + "#")]
    s += [("-w", "0" * 17 + "##"), ("-w", "922337203685477580#"), ("-w", "214748364#"), ("-w", "00000214748364#"), ("--wrap=" + "0" * 22 + "#?",), ("-w", "9223372036854775808"), ("-w", "9223372036854775807"),
          ("-w", "18446744073709551617"), ("-w", "4294967297"), ("-w", "2147483648"), ("-w", "-18446744073709551615"), ("-w", "-4294967295")]
    if tier != "quick":
        s += [("?????",), ("??", "???", "??"), ("-??", "-??"), ("--????",), ("???", "???"), ("-w", "????"), ("--wrap=????",), ("-?", "-?", "-?", "-?", "?"),
              ("?", "-?", "?", "-?"), ("-w?", "-?", "-w", "??"), ("--", "???", "??")]
        for n in LONG:
            for i in range(len(n) - 1):
                s.append(("--" + n[:i] + "??" + n[i + 2:],))
            for i in range(1, len(n)):
                s.append(("--" + n[:i] + "=??", "-?"))
    return s


def tasks(tier, rng):
    out = []
    for name in variants(tier):
        for k, s in enumerate(shapes(tier)):
            for v in range(len(DATA)):
                if name.startswith("x64/B=6") or v == k % 2:
                    out.append(Task(name, "line", s, v, cost=10 ** sum(a.count("?") for a in s) + 300 * any(a.count("#") > 8 for a in s)))
    return out


# ---------------------------------------------------------------- reference

class Ref:
    """what a command line asks for; br decides conditions, values stay terms"""

    def __init__(self, br, bits):
        self.br = br
        self.bits = bits

    def eq(self, x, c):
        return x == ord(c) if type(x) is int else self.br(tm.eq(8, x, ord(c)))

    def digit(self, x):
        if type(x) is int:
            return 48 <= x <= 57
        return self.br(tm.band(1, tm.ule(8, 48, x), tm.ule(8, x, 57)))

    def space(self, x):
        return any(self.eq(x, c) for c in " \t\n\v\f\r")

    def number(self, a):
        """('ok' | 'either' | 'bad', value)"""
        i = 0
        loose = neg = False
        if a and self.digit(a[0]):
            pass
        else:
            while i < len(a) and self.space(a[i]):
                i += 1
                loose = True
            if i < len(a) and self.eq(a[i], "+"):
                i += 1
                loose = True
            elif i < len(a) and self.eq(a[i], "-"):
                i += 1
                loose = neg = True
        if i == len(a):
            return "bad", 0
        W = 64 if len(a) - i <= 18 else 128
        v = 0
        for x in a[i:]:
            if not self.digit(x):
                return "bad", 0
            v = tm.add(W, tm.mul(W, v, 10), tm.sub(W, tm.zext(x, 8, W) if type(x) is not int else x, 48))
        if neg:
            z = v == 0 if type(v) is int else self.br(tm.eq(v.w, v, 0))
            return ("either", 0) if z else ("bad", 0)
        big = (1 << (self.bits - 1)) - 1
        if v > big if type(v) is int else self.br(tm.ult(v.w, big, v)):
            return "either", big
        return "either" if loose else "ok", v

    def parse(self, args):
        d = dict(decode=False, strip=True, ignore=False, wrap=("ok", 76), file=None)
        ops = []
        loose = False
        i = 0
        while i < len(args):
            a = args[i]
            i += 1
            if len(a) < 2 or not self.eq(a[0], "-"):
                ops.append(a)
                continue
            if self.eq(a[1], "-"):
                if len(a) == 2:
                    ops += args[i:]
                    break
                n = 2
                while n < len(a) and not self.eq(a[n], "="):
                    n += 1
                name, val = a[2:n], (a[n + 1:] if n < len(a) else None)
                m = [o for o in LONG if len(name) <= len(o) and all(self.eq(x, c) for x, c in zip(name, o))]
                if len(m) != 1:
                    return "error", None, loose
                o = m[0][0]
                if o == "w":
                    if val is None:
                        if i == len(args):
                            return "error", None, loose
                        val = args[i]
                        i += 1
                elif val is not None:
                    return "error", None, loose
                todo = [(o, val)]
            else:
                todo = []
                k = 1
                while k < len(a):
                    o = next((c for c in "dhinw" if self.eq(a[k], c)), None)
                    k += 1
                    if o == "w":
                        val = a[k:]
                        if not val:
                            if i == len(args):
                                todo.append((None, None))
                                break
                            val = args[i]
                            i += 1
                        todo.append((o, val))
                        break
                    todo.append((o, None))
                    if o is None or o == "h":
                        break
            for o, val in todo:
                if o is None:
                    return "error", None, loose
                if o == "h":
                    return "help", None, loose
                if o == "d":
                    d["decode"] = True
                elif o == "i":
                    d["ignore"] = True
                elif o == "n":
                    d["strip"] = False
                else:
                    how, v = self.number(val)
                    if how == "bad":
                        return "error", None, loose
                    loose |= how == "either"
                    d["wrap"] = how, v
        if len(ops) > 1:
            return "error", None, loose
        if ops:
            a = ops[0]
            if len(a) == 1 and self.eq(a[0], "-"):
                pass
            elif len(a) == 1 and self.eq(a[0], "f"):
                d["file"] = "f"
            else:
                return "error", None, loose
        return "run", d, loose


def result(d, data, wrap):
    """(exit statuses, output, is the output a prefix only)"""
    if not d["decode"]:
        return [0], bytes(cli.wrapped(spec.ref_encode(data), wrap)), False
    f = [x for x in data if ((x in spec.ALPHA or x == 61) if d["ignore"] else not (d["strip"] and x == 10))]
    ref = spec.RefDec(spec.Conc)
    ok = ref.feed(f) if f else 1
    if not ok:
        return [1], bytes(ref.out), True
    return ([0] if ref.whole() else [0, 1]), bytes(ref.out), False


def conc(x, m):
    return x if type(x) is int else tm.evaluate(x, m, {})


def expected(args, bits, v):
    r = Ref(None, bits)
    what, d, loose = r.parse(args)
    if what == "error":
        return {"exit": [1], "out": "", "message": 1}
    if what == "help":
        return {"exit": [0, 1] if loose else [0], "nonempty": 0 if loose else 1}
    st, out, pre = result(d, DATA[v][1 if d["file"] else 0], d["wrap"][1])
    x = {"exit": st + ([1] if loose and 1 not in st else []), "out": out.hex()}
    if pre or loose:
        x["prefix"] = 1
    return x


def line(prog, shape, v):
    def h(cx):
        args = []
        k = 0
        num = sum(a.count("#") for a in shape)
        if num > 3:
            raise core.Unsupported("too many digits")
        digs = cli.digits(cx, num) if num else []
        for a in shape:
            l = []
            for c in a:
                if c == "?":
                    x = tm.var("a%d" % k, 8)
                    k += 1
                    cx.assume(tm.ne(8, x, 0))
                    l.append(x)
                elif c == "#":
                    l.append(digs.pop(0))
                else:
                    l.append(ord(c))
            args.append(l)
        t = cli.Tool(cx, args, list(DATA[v][0]), files={"f": list(DATA[v][1])})
        t.scenario(prog.cfg.name, lambda m: expected([[conc(x, m) for x in a] for a in args], cx.P, v))
        r = t.run()
        R = Ref(cx.branch, cx.P)
        what, d, loose = R.parse(args)
        name = "base64 %s: " % " ".join(repr(a) if not a else a for a in shape)
        prove_clean(cx, name + "memory")
        if r == 1 and loose and what != "error" and not t.out:
            return "rejected"
        if what == "error":
            cx.prove(1 if r == 1 else 0, name + "exit status %d for a bad command line" % r)
            cx.prove(0 if t.out else 1, name + "output for a bad command line")
            cx.prove(1 if t.errs else 0, name + "no message for a bad command line")
            return what
        if what == "help":
            cx.prove(1 if r == 0 else 0, name + "help exits with status %d" % r)
            cx.prove(1 if t.out else 0, name + "help prints nothing")
            s = b""
            for o in t.out:
                if type(o) is tuple:
                    a = o[1]
                    b = cx.bytes_at(a, 1)[0]
                    while b:
                        s += bytes([b])
                        a += 1
                        b = cx.bytes_at(a, 1)[0]
                elif type(o) is int:
                    s += bytes([o])
            for o in LONG:
                cx.prove(1 if b"--" + o.encode() in s and b"-" + o[:1].encode() in s else 0, name + "help does not mention --" + o)
            return what
        data = DATA[v][1 if d["file"] else 0]
        w = d["wrap"][1]
        if d["decode"]:
            w = 0
        elif type(w) is not int:
            n = (len(data) + 2) // 3 * 4
            w = n + 1 if cx.branch(tm.ult(w.w, n, w)) else cx.concretize(w)
        st, out, pre = result(d, data, w)
        cx.prove(1 if r in st else 0, name + "exit status %d, expected %s" % (r, st))
        if pre:
            cx.prove(1 if len(t.out) <= len(out) else 0, name + "too much output")
            cx.prove(1 if t.errs else 0, name + "failure without a message")
        else:
            cx.prove(1 if len(t.out) == len(out) else 0, name + "%d characters written, expected %d" % (len(t.out), len(out)))
        for i, (a, b) in enumerate(zip(t.out, out)):
            cx.prove(tm.eq(8, a, b) if type(a) is not tuple else 0, name + "output character %d" % i)
        return what + ("-d" if d["decode"] else "") + ("f" if d["file"] else "")
    return h


validation = None


def validate(tier, rng, progs, res):
    words = [b"-", b"--", b"f", b"-d", b"-i", b"-n", b"-w", b"-w3", b"-w0", b"-dw7", b"-wx", b"-w-1", b"3", b"--decode", b"--dec", b"--d", b"--wrap",
             b"--wrap=4", b"--wrap=", b"--w", b"--w=5", b"--help", b"-h", b"--ignore-garbage", b"--i", b"--no-strip-newlines", b"--n", b"--x", b"-x",
             b"--decode=1", b"--=", b"---", b"-d-", b"-:", b"-;", b"-W", b"", b" 5", b"+5", b"99999999999999999999", b"--decoder", b"--wrap 5", b"-dni"]
    cases = []
    for name in variants(tier):
        for _ in range(120 if name.startswith("x64/B=6") else 15):
            a = [rng.choice(words) for _ in range(rng.choice((1, 2, 2, 3, 3, 4)))]
            v = rng.randrange(2)
            cases.append((name, a, DATA[v][0], {"f": DATA[v][1]}))
    return cli.compare(res, progs, cases)
