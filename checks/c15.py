"""C15  bin/base64 encodes with correct line wrapping, whatever the buffer boundaries."""

from engine import build, core, terms as tm
from . import cli, spec
from .apilib import sym
from .cli import confirm, make
from .frame import Task
from .memlib import prove_clean

ASSUMPTIONS = ["fread returns full blocks until end of file; write and writev complete (C17 drops that)",
               "the I/O buffer size is a parameter (the shipped value is 1 MiB; sizes of every residue modulo 3 are covered)",
               "libc behaves as ISO C and POSIX say", "clang's IR semantics; z3"]
BOUNDS = {}
SHIP = cli.conf("x64", 0)


def variants(tier):
    q = [cli.conf("x64", 1), cli.conf("x64", 3), cli.conf("x64", 4), cli.conf("x64", 8, iov=4), cli.conf("x64", 6, iov=3),
         cli.conf("x64", 10, emul=True), cli.conf("i686", 5, iov=5), cli.conf("x64", 120), cli.conf("x64", 700)]
    if tier != "quick":
        q += [cli.conf("x64", b, iov=i) for b in (2, 5, 7, 9, 12, 13, 16) for i in (1, 2, 3, 4, 7, None)]
        q += [cli.conf("x64", 5, iov=2, emul=True), cli.conf("i686", 7, iov=4), cli.conf("s390x", 5, iov=4), cli.conf("x64", 1000)]
    return q


def configs(tier):
    for n in variants(tier):
        BOUNDS[n] = "arbitrary input bytes; every length up to %d and lengths around multiples of the buffer; widths 0, 1..9, default 76, " \
            "two lines and more per buffer" % (26 if tier == "quick" else 40)
    BOUNDS[SHIP] = "buffer sizes as shipped: every amount of data one read may deliver (the coder itself abstracted to its output bound)"
    return {n: {} for n in variants(tier) + [SHIP]}


def shipped(prog):
    return cli.shipped(prog, (b"-w0",))


def tasks(tier, rng):
    out = [Task(SHIP, "shipped", cost=1000)]
    for name in variants(tier):
        B = build.CONFIGS[name].B
        if B <= 16:
            ns = list(range(0, 27 if tier == "quick" else 41))
            ws = [None, 1 << 40, "d1", "d2"] + (["d3"] if tier != "quick" else [])
        elif B < 500:
            ns = [56, 57, 58, 114, 119, 120, 121, 171, 172, 239, 240, 241, 300]
            ws = [None, 0, 76, 75, 77, 64, 160, 161, 60]
        else:
            ns = [B - 1, B, B + 1, 2 * B + 3]
            ws = [None, 1, 2, 3]
        for w in ws:
            step = 9 if B <= 16 else 3
            for i in range(0, len(ns), step):
                out.append(Task(name, "encs", w, tuple(ns[i:i + step]), cost=max(ns[i:i + step]) * (3 if w in (1, 2) else 1)))
    return out


def encs(prog, w, ns):
    return core.merge(core.explore(prog, enc(prog, w, n)) for n in ns)


def args_for(w, long):
    if w is None:
        return []
    if type(w) is list:
        return [list(b"--wrap=") + w] if long else [list(b"-w"), w]
    if long:
        return [list(b"--wrap=%d" % w)]
    return [list(b"-w"), list(b"%d" % w)]


def enc(prog, w, n):
    def h(cx):
        d = sym("s", n)
        a = w
        if type(w) is str:
            a = cli.digits(cx, int(w[1:]))
        t = cli.Tool(cx, args_for(a, n % 2), d)

        def width(m):
            if type(a) is list:
                return tm.evaluate(tm.var("width", cli.BITS[len(a)]), m, {})
            return 76 if a is None else a

        def expect(m):
            b = bytes(tm.evaluate(x, m, {}) for x in d)
            return {"exit": [0], "out": bytes(cli.wrapped(spec.ref_encode(b), width(m))).hex()}
        t.scenario(prog.cfg.name, expect)
        r = t.run()
        if type(a) is list:
            a = cli.choose_width(cx, len(a), (n + 2) // 3 * 4)
        want = cli.wrapped(spec.enc_terms(d), 76 if a is None else a)
        what = "width %s, %d bytes: " % (w, n)
        cx.prove(1 if r == 0 else 0, what + "exit status %d" % r)
        k = min(len(t.out), len(want))
        for i in range(k):
            a, b = t.out[i], want[i]
            if type(a) is tuple:
                cx.prove(0, what + "unexpected text")
            cx.prove(tm.eq(8, a, b), what + "output character %d" % i)
        cx.prove(1 if len(t.out) == len(want) else 0, what + "%d characters written, expected %d" % (len(t.out), len(want)))
        prove_clean(cx, what + "memory")
        return "lines%d" % min(9, want.count(10))
    return h


validation = None


def validate(tier, rng, progs, res):
    cases = []
    for name in variants(tier):
        for _ in range(3):
            n = rng.choice((0, 1, 5, 17, 40, 200))
            cases.append((name, [b"-w", b"%d" % rng.choice((0, 1, 3, 4, 10, 76))], bytes(rng.randrange(256) for _ in range(n)), {}))
    return cli.compare(res, progs, cases)
