"""C16  bin/base64 -d decodes and filters its input, whatever the buffer boundaries."""

from engine import build, core, terms as tm
from . import cli, spec
from .apilib import sym
from .cli import confirm, make
from .frame import Task
from .memlib import prove_clean

ASSUMPTIONS = ["fread returns full blocks until end of file; write completes (C17 drops that)",
               "the I/O buffer size is a parameter (the shipped value is 1 MiB)",
               "a text that ends inside a group leaves the exit status open (the tool accepts it; GNU base64 does not)",
               "libc behaves as ISO C and POSIX say", "clang's IR semantics; z3"]
BOUNDS = {}
SHIP = cli.conf("x64", 0)
MODES = {"plain": ["-d"], "n": ["-dn"], "i": ["--decode", "-i"], "in": ["-n", "-i", "-d"]}


def variants(tier):
    q = [cli.conf("x64", 1), cli.conf("x64", 2), cli.conf("x64", 3), cli.conf("x64", 4), cli.conf("x64", 5), cli.conf("x64", 8),
         cli.conf("i686", 6), cli.conf("x64", 64)]
    if tier != "quick":
        q += [cli.conf("x64", b) for b in (6, 7, 9, 10, 12, 13, 16)] + [cli.conf("i686", 5), cli.conf("s390x", 5)]
    return q


def size(tier):
    return 7 if tier == "quick" else 9


def configs(tier):
    for n in variants(tier):
        BOUNDS[n] = "every input of up to %d arbitrary bytes; longer inputs of alphabet characters and line ends with a window of 4 " \
            "arbitrary bytes anywhere; with and without -i and -n" % size(tier)
    BOUNDS[SHIP] = "buffer sizes as shipped: every amount of data one read may deliver (the coder itself abstracted to its output bound)"
    return {n: {} for n in variants(tier) + [SHIP]}


def shipped(prog):
    return cli.shipped(prog, (b"-dn",))


def tasks(tier, rng):
    out = [Task(SHIP, "shipped", cost=1000)]
    for name in variants(tier):
        B = build.CONFIGS[name].B
        for mode in MODES:
            if B <= 16:
                for n in range(0, size(tier) + 1):
                    out.append(Task(name, "dec", mode, n, 0, n, 0, cost=3 ** n))
                N = 14 if tier == "quick" else 24
                for n in range(size(tier) + 1, N):
                    for a in range(0, n - 3, 3):
                        out.append(Task(name, "dec", mode, n, a, a + 4, (n * 5 + a) % 7 + 3, cost=200))
            else:
                for n in (B - 1, B, B + 1, 2 * B, 2 * B + 5):
                    for a in (0, B - 4, B - 2, n - 4):
                        if 0 <= a <= n - 4:
                            out.append(Task(name, "dec", mode, n, a, a + 4, 20, cost=300))
    return out


def dec(prog, mode, n, lo, hi, line):
    """input of n bytes: arbitrary in [lo, hi), elsewhere alphabet characters, with a line end every `line` characters"""
    strip, ignore = "n" not in mode, "i" in mode
    if mode == "plain":
        strip, ignore = True, False

    def h(cx):
        d = sym("s", n)
        for i, x in enumerate(d):
            if lo <= i < hi:
                continue
            if line and i % line == line - 1 and (strip or ignore):
                d[i] = 10 if i % 2 or not ignore else 42
            else:
                cx.assume(spec.is_valid(x))
        t = cli.Tool(cx, [list(a.encode()) for a in MODES[mode]], d)

        def expect(m):
            b = bytes(x if type(x) is int else tm.evaluate(x, m, {}) for x in d)
            if ignore:
                f = [x for x in b if x in spec.ALPHA or x == 61]
            else:
                f = [x for x in b if not (strip and x == 10)]
            ref = spec.RefDec(spec.Conc)
            r = ref.feed(f)
            o = bytes(ref.out)
            if f and r == 0:
                return {"exit": [1], "out": o.hex(), "prefix": 1, "message": 1}
            return {"exit": [0] if ref.whole() else [0, 1], "out": o.hex()}
        t.scenario(prog.cfg.name, expect)
        r = t.run()
        ref = spec.RefDec(cx)
        f = cli.filtered(cx, d, strip, ignore)
        v = ref.feed(f) if f else 1
        what = "%s, %d characters: " % (" ".join(MODES[mode]), n)
        bad = not v
        if bad:
            cx.prove(1 if r == 1 else 0, what + "invalid text accepted (exit status %d)" % r)
            cx.prove(1 if t.errs else 0, what + "failure without a message")
            cx.prove(1 if len(t.out) <= len(ref.out) else 0, what + "more output than the text holds")
        elif ref.whole():
            cx.prove(1 if r == 0 else 0, what + "valid text rejected (exit status %d)" % r)
        if not bad:
            cx.prove(1 if len(t.out) == len(ref.out) else 0, what + "%d bytes written, expected %d" % (len(t.out), len(ref.out)))
        for i, (a, b) in enumerate(zip(t.out, ref.out)):
            cx.prove(tm.eq(8, a, b) if type(a) is not tuple else 0, what + "output byte %d" % i)
        prove_clean(cx, what + "memory")
        return ("bad" if bad else "ok") + str(min(len(ref.out), 5))
    return h


validation = None


def validate(tier, rng, progs, res):
    cases = []
    for name in variants(tier):
        for _ in range(4):
            n = rng.choice((0, 1, 8, 20, 36, 100))
            d = bytes(rng.choice(b"ABCxyz019+/") if rng.random() < .9 else rng.choice(b"\n=*") for _ in range(n))
            cases.append((name, [rng.choice((b"-d", b"-dn", b"-di"))], d, {}))
    return cli.compare(res, progs, cases)
