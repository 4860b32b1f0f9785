"""The command-line tool under the symbolic engine: its own code, the library's code, and a model of the system calls."""

import os
import shutil
import subprocess
import tempfile
from engine import build, core, terms as tm
from engine.core import PathEnd
from . import replay, spec
from .memlib import bad_events, prove_clean

EINTR, EIO, ENOENT, EINVAL, ENOMEM, ENOSPC = 4, 5, 2, 22, 12, 28
LIMIT = 3000


class Exit(Exception):
    pass


def conf(base="x64", B=6, iov=None, emul=False):
    """configuration of the tool: I/O buffer size, IOV_MAX, emulated writev"""
    name = "%s/B=%d%s%s" % (base, B, ",iov=%d" % iov if iov else "", ",emul" if emul else "")
    if name not in build.CONFIGS:
        b = build.CONFIGS[base]
        c = build.Config(name, b.target, (), b.cflags, (), b.sysinc)
        c.cli = ["-DBASE64_VERIF_BUFFER_SIZE=%d" % B] if B else []      # 0: as shipped
        if iov:
            c.cli += ["-DVERIF_IOV_MAX=%d" % iov]
        if emul:
            c.cli += ["-DEMULATE_WRITEV"]
        c.iov = iov or 1024
        c.B = B
        build.CONFIGS[name] = c
    return name


def make(name, kw=None):
    cfg = build.CONFIGS[name]
    inc = os.path.join(build.SUPPORT, "iovmax.h")
    if not cfg.B:
        return build.program(cfg, builtins=dict(BUILTINS, **SHIPPED), codecs=(), lib=False, tables=False, extern_globals={
            "stdin": (8, None), "stdout": (8, None), "stderr": (8, None)}, extra=[
            ("tool", os.path.join(build.REPO, "bin/base64.c"), cfg.cli),
            ("clilib", os.path.join(build.SUPPORT, "clilib.c"), ["-fno-builtin", "-ffreestanding"])])
    P = 4 if cfg.target and "64" not in cfg.target and "s390x" not in cfg.target else 8
    return build.program(cfg, builtins=BUILTINS, codecs=("plain",), extern_globals={
        "stdin": (P, None), "stdout": (P, None), "stderr": (P, None)}, extra=[
        ("tool", os.path.join(build.REPO, "bin/base64.c"), cfg.cli + ["-include", inc]),
        ("clilib", os.path.join(build.SUPPORT, "clilib.c"), ["-fno-builtin", "-ffreestanding"])])


class Stream:
    def __init__(self, name, data):
        self.name = name
        self.data = data        # byte values, or None for an output stream
        self.pos = 0
        self.error = False
        self.closed = False


class Tool:
    """one run of the tool"""

    def __init__(self, cx, args, stdin, files=None, faults=0, kinds=()):
        self.cx = cx
        cx.max_steps = 200000 + 2000 * len(stdin)
        self.W = cx.P // 8
        self.args = args                # lists of byte values
        self.stdin = stdin
        self.files = files or {}
        self.out = []
        self.err = []
        self.errs = 0
        self.faults = faults
        self.kinds = kinds
        self.broken = None
        self.failed = []                # injected failures other than EINTR
        self.plan = {"W": [], "R": [], "M": []}
        self.streams = {}
        self.allocs = {}
        cx.user["tool"] = self
        self.errno = cx.alloc(4, "errno", 0)
        self.std = {}
        for n, d in (("stdin", stdin), ("stdout", None), ("stderr", None)):
            a = self.stream(Stream(n, d))
            g = cx.prog.global_obj(cx, n)
            cx.store(g.base, a, self.W)
            self.std[n] = self.streams[a]
        self.ctype = None

    def stream(self, s):
        o = self.cx.alloc(16, "FILE", 0)
        self.streams[o.base] = s
        return o.base

    def run(self):
        cx = self.cx
        ptrs = []
        for k, a in enumerate([[ord(c) for c in "base64"]] + list(self.args)):
            ptrs.append(cx.alloc(len(a) + 1, "argv%d" % k, list(a) + [0]).base)
        av = cx.alloc(self.W * (len(ptrs) + 1), "argv", 0)
        for i, p in enumerate(ptrs):
            cx.store(av.base + i * self.W, p, self.W)
        try:
            r = cx.prog.call(cx, "main", len(ptrs), av.base)
        except Exit as e:
            r = e.args[0]
        except core.StepLimit:
            raise core.Violation("the program does not end", dict(cx.model), cx)
        return cx.concretize(r) & 255 if type(r) is not int else r & 255

    # ---- replay
    def scenario(self, cfgname, expect):
        """expect(model) -> {"exit": [...], "out": hex, "prefix": bool}"""
        def sc(v):
            m = v.model
            memo = {}
            ev = lambda ts: bytes((t if type(t) is int else tm.evaluate(t, m, memo)) & 255 for t in ts)
            return {"cli": cfgname, "memory": 1 if bad_events(self.cx) else 0, "args": [ev(a).hex() for a in self.args], "stdin": ev(self.stdin).hex(),
                    "files": {k: ev(d).hex() for k, d in self.files.items()},
                    "plan": {k: [p(m) if callable(p) else p for p in ps] for k, ps in self.plan.items()}, "expect": expect(m)}
        self.cx.user["scenario"] = sc

    # ---- faults
    def pick(self, kind, options):
        """nondeterministic outcome of a call; 0 is the ordinary one"""
        opts = [o for o in options if o in self.kinds]
        if self.faults <= 0 or not opts:
            return None
        k = self.cx.choose(1 + len(opts))
        if k == 0:
            return None
        self.faults -= 1
        return opts[k - 1]

    def seterr(self, e):
        self.cx.store(self.errno.base, e, 4)

    def error(self, what):
        """errno of a failing call: anything but EINTR"""
        e = tm.var("errno%d" % len(self.failed), 32)
        self.cx.assume(tm.ne(32, e, EINTR))
        self.cx.assume(tm.ule(32, 1, e))
        self.cx.assume(tm.ule(32, e, 133))
        self.failed.append(what)
        self.broken = e                 # it keeps failing
        self.seterr(e)
        return lambda m: "e%d" % tm.evaluate(e, m, {})

    def emit(self, fd, regions, total):
        """one write-like call"""
        cx = self.cx
        minus = (1 << cx.P) - 1
        if len(self.out) > LIMIT * 4:
            raise core.Violation("output without end", dict(cx.model), cx)
        if fd != 1:
            if fd == 2:
                self.errs += 1
                return total
            self.seterr(9)
            return minus
        if self.broken is not None:
            self.seterr(self.broken)
            return minus
        f = self.pick("W", (["partial"] if total > 1 else []) + ["eintr", "error"])
        if f == "eintr":
            self.seterr(EINTR)
            self.plan["W"].append("e4")
            return minus
        if f == "error":
            self.plan["W"].append(self.error("write"))
            return minus
        n = total
        if f == "partial":
            v = cx.fresh("wrote", 32)
            cx.assume(tm.ule(32, 1, v))
            cx.assume(tm.ult(32, v, total))
            n = cx.concretize(v)
            self.plan["W"].append("k%d" % n)
        else:
            self.plan["W"].append("f")
        left = n
        for a, k in regions:
            k = min(k, left)
            if k:
                self.out.extend(cx.bytes_at(a, k))
            left -= k
        return n


def T(cx):
    return cx.user["tool"]


def _write(cx, fd, p, n):
    t = T(cx)
    n = cx.concretize(n)
    p = cx.concretize(p)
    if n > 1 << 24:
        raise core.Violation("write of %d bytes" % n, dict(cx.model), cx)
    return t.emit(cx.concretize(fd), [(p, n)], n)


def _writev(cx, fd, iov, cnt):
    t = T(cx)
    cnt = cx.concretize(cnt)
    iov = cx.concretize(iov)
    if cnt > cx.prog.cfg.iov or cnt == 0 or cnt >> 31:
        t.seterr(EINVAL)
        t.plan["W"].append("f")
        return (1 << cx.P) - 1
    W = t.W
    reg = []
    for i in range(cnt):
        b = cx.concretize(cx.load(iov + 2 * W * i, W))
        n = cx.concretize(cx.load(iov + 2 * W * i + W, W))
        reg.append((b, n))
    tot = sum(n for _, n in reg)
    if tot > 1 << 24:
        raise core.Violation("writev of %d bytes" % tot, dict(cx.model), cx)
    return t.emit(cx.concretize(fd), reg, tot)


def getstream(cx, fp):
    s = T(cx).streams.get(cx.concretize(fp))
    if s is None:
        raise core.Violation("not a stream", dict(cx.model), cx)
    if s.closed:
        raise core.Violation("use of a closed stream", dict(cx.model), cx)
    return s


def _fread(cx, p, size, n, fp):
    t = T(cx)
    s = getstream(cx, fp)
    p = cx.concretize(p)
    size = cx.concretize(size)
    want = size * cx.concretize(n)
    if size == 0 or want == 0:
        return 0
    if s.error:
        t.plan["R"].append("f")
        return 0
    if s.data is None:
        s.error = True
        t.failed.append("read")
        return 0
    f = t.pick("R", ["rerror"])
    have = len(s.data) - s.pos
    if f == "rerror":
        v = cx.fresh("got", 32)
        cx.assume(tm.ule(32, v, min(want - 1, have)))
        k = cx.concretize(v)
        t.plan["R"].append("x%d" % k)
        t.failed.append("read")
        t.seterr(EIO)
        s.error = True
    else:
        k = min(want, have)
        t.plan["R"].append("f")
    if k:
        cx.put_bytes(p, list(s.data[s.pos:s.pos + k]))
    s.pos += k
    return k // size


def _read(cx, fd, p, n):
    t = T(cx)
    if cx.concretize(fd) != 0:
        raise core.Unsupported("read from another descriptor")
    s = t.std["stdin"]
    n = cx.concretize(n)
    k = min(n, len(s.data) - s.pos)
    if k:
        cx.put_bytes(cx.concretize(p), list(s.data[s.pos:s.pos + k]))
    s.pos += k
    return k


def _fprintf(cx, fp, fmt, *a):
    s = getstream(cx, fp)
    t = T(cx)
    if s.name == "stdout":
        t.out.append(("text", cx.concretize(fmt)))
    else:
        t.errs += 1
    return 1


def _printf(cx, fmt, *a):
    T(cx).out.append(("text", cx.concretize(fmt)))
    return 1


def _fputs(cx, p, fp):
    return _fprintf(cx, fp, p)


def _fputc(cx, c, fp):
    s = getstream(cx, fp)
    if s.name == "stdout":
        T(cx).out.append(tm.trunc(c, 8) if type(c) is not int else c & 255)
    else:
        T(cx).errs += 1
    return c


def _fwrite(cx, p, size, n, fp):
    t = T(cx)
    s = getstream(cx, fp)
    k = cx.concretize(size) * cx.concretize(n)
    if s.name != "stdout":
        t.errs += 1
        return n
    r = t.emit(1, [(cx.concretize(p), k)], k)
    if r >> (cx.P - 1) or r != k:
        s.error = True
        return 0
    return n


def _fopen(cx, name, mode):
    t = T(cx)
    name = cx.concretize(name)
    cs = []
    while True:
        b = cx.bytes_at(name + len(cs), 1)[0]
        if b == 0 if type(b) is int else cx.branch(tm.eq(8, b, 0)):
            break
        cs.append(b)
        if len(cs) > 300:
            raise core.Unsupported("long file name")
    for f, d in t.files.items():
        if len(f) == len(cs) and all(cx.branch(tm.eq(8, x, ord(c))) for x, c in zip(cs, f)):
            return t.stream(Stream(f, list(d)))
    t.seterr(ENOENT)
    t.failed.append("open")
    return 0


def _fclose(cx, fp):
    s = getstream(cx, fp)
    s.closed = True
    return 0


def _malloc(cx, n):
    t = T(cx)
    if t.pick("M", ["nomem"]):
        t.plan["M"].append("n")
        t.failed.append("malloc")
        t.seterr(ENOMEM)
        return 0
    t.plan["M"].append("f")
    n = cx.concretize(n)
    if n > 1 << 26:
        raise core.Unsupported("huge allocation")
    o = cx.alloc(n, "malloc%d" % len(t.allocs), None)
    t.allocs[o.base] = o
    return o.base


def _calloc(cx, a, b):
    n = cx.concretize(a) * cx.concretize(b)
    p = _malloc(cx, n)
    if p:
        cx.memset(p, 0, n)
    return p


def _free(cx, p):
    p = cx.concretize(p)
    if p == 0:
        return None
    o = T(cx).allocs.get(p)
    if o is None or o.freed:
        raise core.Violation("free of an invalid pointer", dict(cx.model), cx)
    o.freed = True


def _ctype(cx):
    t = T(cx)
    if t.ctype is None:
        o = cx.alloc(384 * 2, "ctype", 0)
        for c in range(128):
            ch = chr(c)
            v = 0
            v |= 0x100 if ch.isupper() else 0
            v |= 0x200 if ch.islower() else 0
            v |= 0x400 if ch.isalpha() else 0
            v |= 0x800 if ch.isdigit() else 0
            v |= 0x1000 if ch in "0123456789abcdefABCDEF" else 0
            v |= 0x2000 if ch in " \t\n\v\f\r" else 0
            v |= 0x4000 if 32 <= c < 127 else 0
            v |= 0x8000 if 33 <= c < 127 else 0
            v |= 1 if ch in " \t" else 0
            v |= 2 if c < 32 or c == 127 else 0
            v |= 4 if 33 <= c < 127 and not ch.isalnum() else 0
            v |= 8 if ch.isalnum() else 0
            cx.store(o.base + 256 + 2 * c, v, 2)
        q = cx.alloc(t.W, "ctypep", None)
        cx.store(q.base, o.base + 256, t.W)
        t.ctype = q.base
    return t.ctype


def _exit(cx, r):
    raise Exit(r)


def _strerror(cx, e):
    return cx.alloc(8, "strerror", [ord(c) for c in "error"] + [0, 0, 0]).base


BUILTINS = {
    "write": _write, "writev": _writev, "fread": _fread, "fread_unlocked": _fread, "read": _read, "fprintf": _fprintf,
    "vfprintf": _fprintf, "printf": _printf, "puts": lambda cx, p: _printf(cx, p), "fputs": _fputs, "fputc": _fputc, "putc": _fputc,
    "putchar": lambda cx, c: T(cx).out.append(c & 255) or 1, "fwrite": _fwrite, "fopen": _fopen, "fopen64": _fopen,
    "fclose": _fclose, "malloc": _malloc, "calloc": _calloc, "free": _free, "strerror": _strerror,
    "ferror": lambda cx, fp: 1 if getstream(cx, fp).error else 0,
    "feof": lambda cx, fp: 1 if (lambda s: s.data is not None and s.pos >= len(s.data))(getstream(cx, fp)) else 0,
    "fflush": lambda cx, fp: 0, "fileno": lambda cx, fp: {"stdin": 0, "stdout": 1, "stderr": 2}.get(getstream(cx, fp).name, 3),
    "__errno_location": lambda cx: T(cx).errno.base, "__ctype_b_loc": _ctype, "exit": _exit, "_exit": _exit,
    "perror": lambda cx, p: setattr(T(cx), "errs", T(cx).errs + 1), "isatty": lambda cx, fd: 0,
    "setvbuf": lambda cx, *a: 0, "clearerr": lambda cx, fp: setattr(getstream(cx, fp), "error", False),
    "memcpy": lambda cx, d, s, n: cx.memcpy(d, s, n) or d, "memmove": lambda cx, d, s, n: cx.memcpy(d, s, n) or d,
    "memset": lambda cx, d, c, n: cx.memset(d, c & 255 if type(c) is int else tm.trunc(c, 8), n) or d,
    "setlocale": lambda cx, *a: 0, "posix_fadvise": lambda cx, *a: 0,
}


# ---------------------------------------------------------------- buffer sizes as shipped

def room(cx, p):
    p = cx.concretize(p)
    o = cx.obj_at(p)
    if o is None or o.freed or p < o.base:
        raise core.Violation("buffer pointer is wild", dict(cx.model), cx)
    return max(0, o.base + o.size - p)


def _s_fread(cx, p, size, n, fp):
    u = cx.user
    getstream(cx, fp)
    want = cx.concretize(size) * cx.concretize(n)
    cx.prove(1 if want <= room(cx, p) else 0, "fread of %d bytes into a smaller buffer" % want)
    u["want"] = want
    u["reads"] = u.get("reads", 0) + 1
    if u["reads"] > 2 or want == 0:
        return 0
    v = cx.fresh("got", cx.P)
    cx.assume(tm.ule(cx.P, 1, v))
    cx.assume(tm.ule(cx.P, v, want))
    return v


def _s_coder(most):
    def f(cx, state, src, n, out, outlen):
        # n is symbolic: the statement is for every value of it
        cx.prove(tm.ule(cx.P, n, room(cx, src)), "more input handed over than the buffer holds")
        cx.prove(tm.ule(cx.P, most(cx.P, n), room(cx, out)), "output of one call may exceed the buffer")
        cx.store(outlen, 0, cx.P // 8)
        return 1
    return f


def _s_final(cx, state, out, outlen):
    cx.prove(1 if room(cx, out) >= 4 else 0, "output of finalisation may exceed the buffer")
    cx.store(outlen, 0, cx.P // 8)


SHIPPED = {
    "fread": _s_fread, "base64_stream_encode_init": lambda cx, s, f: None, "base64_stream_decode_init": lambda cx, s, f: None,
    # two bytes may be pending when encoding; each four characters in a row decode to three bytes
    "base64_stream_encode": _s_coder(lambda P, n: tm.mul(P, tm.udiv(P, tm.add(P, n, 2), 3), 4)),
    "base64_stream_decode": _s_coder(lambda P, n: tm.sub(P, n, tm.lshr(P, n, 2))),
    "base64_stream_encode_final": _s_final,
}


def shipped(prog, mode):
    """the buffers of the tool as shipped hold what the library may produce, for every amount of data a read may deliver"""
    def h(cx):
        t = Tool(cx, [list(a) for a in mode], [])
        cx.max_steps = 3000000

        def expect(m):
            n = 3 * cx.user.get("want", 1 << 20) + 5
            if any(b"d" in a for a in mode):
                t.stdin = [65] * (n // 4 * 4)
                o = bytes(n // 4 * 3)
            else:
                t.stdin = [0] * n
                o = bytes(wrapped(spec.ref_encode(bytes(n)), 0))
            return {"exit": [0], "out": o.hex()}

        def sc(v):
            x = expect(v.model)
            return {"cli": prog.cfg.name, "memory": 1, "args": [a.hex() for a in mode], "stdin": bytes(t.stdin).hex(), "files": {}, "expect": x}
        cx.user["scenario"] = sc
        r = t.run()
        cx.prove(1 if r == 0 else 0, "exit status %d" % r)
        prove_clean(cx, "memory")
        return "sizes"
    return h


# ---------------------------------------------------------------- specification

def wrapped(text, w):
    """text (list) in lines of w"""
    if w == 0:
        return list(text)
    out = []
    for i in range(0, len(text), w):
        out.extend(text[i:i + w])
        out.append(10)
    return out


BITS = {1: 4, 2: 7, 3: 10}


def digits(cx, k):
    """k symbolic digits: characters of a variable number, kept as tables over it"""
    w = BITS[k]
    v = tm.var("width", w)
    cx.assume(tm.ult(w, v, 10 ** k))
    n = 10 ** k
    return [tm.tabulated(8, tuple(48 + min(x, n - 1) // 10 ** (k - 1 - i) % 10 for x in range(1 << w)), v) for i in range(k)]


def choose_width(cx, k, n):
    """the width those digits stand for, as far as it matters for n characters"""
    v = tm.var("width", BITS[k])
    if n < 1 << BITS[k] and cx.branch(tm.ult(BITS[k], n, v)):
        return n + 1
    return cx.concretize(v)


def valid_or_pad(x):
    return tm.bor(1, spec.is_valid(x), tm.eq(8, x, 61))


def filtered(cx, data, strip, ignore):
    """what is left to decode"""
    out = []
    for x in data:
        if ignore:
            ok = cx.branch(valid_or_pad(x))
        elif strip:
            ok = not cx.branch(tm.eq(8, x, 10))
        else:
            ok = 1
        if ok:
            out.append(x)
    return out


# ---------------------------------------------------------------- replay on the real tool

_exe = {}


def tool(cfgname, shim=True):
    if (cfgname, shim) in _exe:
        return _exe[cfgname, shim]
    cfg = build.CONFIGS[cfgname]
    cc, run = replay.runner(cfg)
    safe = "".join(c if c.isalnum() else "_" for c in cfgname)
    d = os.path.join(build.workdir(), "tool-" + safe)
    os.makedirs(d, exist_ok=True)
    build.write_config(cfg, d)
    base = [cc, "-std=gnu11", "-O1", "-w", "-I", d, "-I", os.path.join(build.REPO, "include")] + list(cfg.cflags)
    objs = []
    for k, (src, extra) in enumerate([("bin/base64.c", cfg.cli + ["-include", os.path.join(build.SUPPORT, "iovmax.h")]),
                                      ("lib/lib.c", []), ("lib/codec_choose.c", []), ("lib/tables/tables.c", [])] +
                                     [("lib/arch/%s/codec.c" % build.DIRS[c], []) for c in build.CODECS]):
        o = os.path.join(d, "b%d.o" % k)
        asan = ["-fsanitize=address"] if not shim else []
        replay._cc(base + extra + asan + ["-c", os.path.join(build.REPO, src), "-o", o])
        objs.append(o)
    exe = os.path.join(d, "base64" if shim else "base64-asan")
    if shim or True:
        oc = cc.replace("gcc", "objcopy")
        for s in ("write", "writev", "fread", "ferror", "malloc"):
            subprocess.run([oc, "--redefine-sym", "%s=shim_%s" % (s, s), objs[0]], check=True)
        o = os.path.join(d, "shim.o")
        replay._cc(base + [x for x in cfg.cli if "IOV" in x] + ["-c", os.path.join(build.SUPPORT, "clishim.c"), "-o", o])
        objs.append(o)
    replay._cc([cc, "-o", exe] + (["-static"] if shim else ["-fsanitize=address"]) + objs)
    _exe[cfgname, shim] = run + [exe]
    return _exe[cfgname, shim]


def rebuild_conf(name):
    """configuration of that name (in a fresh process, when a replay file is re-run)"""
    if name in build.CONFIGS:
        return
    base, rest = name.split("/")
    kw = {}
    for f in rest.split(","):
        if f.startswith("B="):
            kw["B"] = int(f[2:])
        elif f.startswith("iov="):
            kw["iov"] = int(f[4:])
        elif f == "emul":
            kw["emul"] = True
    conf(base, **kw)


def execute(sc, shim=True):
    """run the real tool; (exit status, stdout, stderr)"""
    rebuild_conf(sc["cli"])
    cmd = tool(sc["cli"], shim)
    d = tempfile.mkdtemp(prefix="cli-", dir=build.workdir())
    try:
        for f, h in sc.get("files", {}).items():
            with open(os.path.join(d, f), "wb") as o:
                o.write(bytes.fromhex(h))
        e = {"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": "detect_leaks=0:exitcode=98"}
        for k, p in sc.get("plan", {}).items():
            e["VERIF_" + k] = ",".join(p)
        try:
            r = subprocess.run([cmd[0]] + [bytes(c, "utf8") for c in cmd[1:]] + [bytes.fromhex(a) for a in sc["args"]], cwd=d, env=e,
                               input=bytes.fromhex(sc["stdin"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=10)
        except subprocess.TimeoutExpired:
            return "hang", b"", b""
        return r.returncode, r.stdout, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(sc, rc, out, err):
    x = sc["expect"]
    if rc == "hang":
        return "the program does not end"
    if rc not in x["exit"]:
        return "exit status %r, expected %r" % (rc, x["exit"])
    if "out" in x:
        want = bytes.fromhex(x["out"])
        if x.get("prefix"):
            if not want.startswith(out):
                return "wrote %r, which does not begin %r" % (out[:80], want[:80])
        elif out != want:
            return "wrote %r, expected %r" % (out[:80], want[:80])
    if x.get("nonempty") and not out:
        return "no output"
    if x.get("message") and not err:
        return "no error message"
    return None


def confirm(sc):
    if "cli" not in sc:
        return replay.confirm(sc)
    try:
        d = judge(sc, *execute(sc))
        if d:
            return "confirmed", d
        if sc.get("memory") and build.CONFIGS[sc["cli"]].target is None:
            rc, out, err = execute(sc, shim=False)
            if rc == 98 or b"AddressSanitizer" in err:
                return "confirmed", "AddressSanitizer reports an error on the real build"
    except replay.NoReplay as e:
        return "impossible", str(e)
    return "not-confirmed", "the real tool does what was expected"


# ---------------------------------------------------------------- differential validation of the encoding

def compare(res, progs, cases):
    """concrete runs on the encoding and on the real tool; cases: (configuration, args, stdin, files)"""
    for cfg, args, data, files in cases:
        if cfg not in progs:
            continue
        got = []

        def h(cx):
            t = Tool(cx, [list(a) for a in args], list(data), files={k: list(v) for k, v in files.items()})
            r = t.run()
            out = b""
            for o in t.out:
                if type(o) is tuple:
                    return got.append((r, None, t.errs > 0))
                out += bytes([o & 255]) if type(o) is int else b"?"
            got.append((r, out, t.errs > 0))
        try:
            core.explore(progs[cfg], h)
            rc, out, err = execute({"cli": cfg, "args": [a.hex() for a in args], "stdin": data.hex(), "files": {k: v.hex() for k, v in files.items()}})
        except (replay.NoReplay, build.BuildError, core.Unsupported, OSError) as e:
            res["skipped"].append("%s: %s" % (cfg, str(e)[:200]))
            continue
        if not got:
            res["skipped"].append("%s: the encoding reports an error on a concrete run" % cfg)
            continue
        r, o, e = got[0]
        if r == rc and (o is None and out or o == out) and e == bool(err):
            res["validated"] += 1
        else:
            res["mismatches"].append({"cfg": cfg, "args": [repr(a) for a in args], "encoding": repr(got[0])[:300], "real": repr((rc, out, err))[:300]})
    res["skipped"] = sorted(set(res["skipped"]))
    return res
