"""C17  bin/base64 under short writes, interruptions and I/O failures: nothing lost, duplicated or reordered, failures reported."""

from engine import build, core, terms as tm
from . import cli, spec
from .apilib import sym
from .cli import confirm, make
from .frame import Task
from .memlib import prove_clean

ASSUMPTIONS = ["write/writev transfer between one byte and everything, or fail with EINTR, or with any other errno from then on; fread delivers some bytes and then "
               "fails; malloc fails; a write of nothing succeeds", "the I/O buffer size and IOV_MAX are parameters",
               "failures of printing the help text and of closing files are outside", "libc behaves as ISO C and POSIX say",
               "clang's IR semantics; z3"]
BOUNDS = {}
KINDS = ("partial", "eintr", "error", "rerror", "nomem")


def variants(tier):
    q = [cli.conf("x64", 6, iov=3), cli.conf("x64", 6, iov=3, emul=True), cli.conf("x64", 4), cli.conf("x64", 5, emul=True), cli.conf("i686", 7, iov=2)]
    if tier != "quick":
        q += [cli.conf("x64", b, iov=i, emul=e) for b, i in ((1, 1), (3, 2), (8, 4), (9, 5), (12, None)) for e in (False, True)]
        q += [cli.conf("s390x", 5, iov=4)]
    return q


def faults(tier):
    return 2 if tier == "quick" else 3


def configs(tier):
    for n in variants(tier):
        BOUNDS[n] = "every placement of up to %d faults of every kind, transfer counts all values; inputs up to %d bytes, widths 0..5 and 76" % (
            faults(tier), 12 if tier == "quick" else 16)
    return {n: {} for n in variants(tier)}


def tasks(tier, rng):
    out = []
    F = faults(tier)
    for name in variants(tier):
        for w in (0, 1, 2, 3, 5, None):
            for n in (0, 1, 4, 6, 8, 11) if tier == "quick" else range(0, 15):
                if w == 1 and n > 8 and F > 2:
                    continue
                out.append(Task(name, "enc", w, n, F, cost=(n + 2) ** (F if w else 1) * (3 if w == 1 else 1)))
        for mode in ("plain", "n", "i"):
            for n in (0, 3, 5, 8, 13) if tier == "quick" else range(0, 18):
                out.append(Task(name, "dec", mode, n, F, cost=(n + 2) ** 2))
        out.append(Task(name, "file", 2, 5, F, cost=20))
    return out


def outcome(cx, t, r, want, what):
    """the verdict on one run"""
    cx.note = None
    if t.failed:
        cx.prove(1 if r == 1 else 0, what + "exit status %d after a failing %s" % (r, t.failed[0]))
        cx.prove(1 if t.errs else 0, what + "failing %s without a message" % t.failed[0])
        cx.prove(1 if len(t.out) <= len(want) else 0, what + "more output than there should be")
    else:
        cx.prove(1 if r == 0 else 0, what + "exit status %d without a failure" % r)
        cx.prove(1 if len(t.out) == len(want) else 0, what + "%d characters written, expected %d" % (len(t.out), len(want)))
    for i, (a, b) in enumerate(zip(t.out, want)):
        cx.prove(tm.eq(8, a, b) if type(a) is not tuple else 0, what + "output character %d" % i)
    prove_clean(cx, what + "memory")


def wanted(t, want):
    def expect(m):
        o = bytes(x if type(x) is int else tm.evaluate(x, m, {}) for x in want)
        if t.failed:
            return {"exit": [1], "out": o.hex(), "prefix": 1, "message": 1}
        return {"exit": [0], "out": o.hex()}
    return expect


def enc(prog, w, n, F):
    def h(cx):
        d = sym("s", n)
        t = cli.Tool(cx, [] if w is None else [list(b"-w%d" % w)], d, faults=F, kinds=KINDS)
        want = cli.wrapped(spec.enc_terms(d), 76 if w is None else w)
        t.scenario(prog.cfg.name, wanted(t, want))
        r = t.run()
        outcome(cx, t, r, want, "encoding, width %s, %d bytes: " % (w, n))
        return "faults%d%s" % (F - t.faults, "".join(sorted(set(t.failed))))
    return h


def dec(prog, mode, n, F):
    def h(cx):
        d = sym("s", n)
        txt = []
        for i, x in enumerate(d):
            if i % 6 == 5 and mode != "n":
                d[i] = 10 if mode == "plain" else 33
            else:
                txt.append(x)
                cx.assume(spec.is_valid(x))
        k = len(txt) // 4 * 4
        if k < len(txt):        # whole groups only
            drop = len(txt) - k
            d = d[:len(d) - drop] if all(type(x) is not int for x in d[len(d) - drop:]) else None
            if d is None:
                return "skipped"
            txt = txt[:k]
        t = cli.Tool(cx, [list(b"-d" if mode == "plain" else b"-d" + mode.encode())], d, faults=F, kinds=KINDS)
        ref = spec.RefDec(cx)
        if txt:
            ref.feed(txt)
        t.scenario(prog.cfg.name, wanted(t, ref.out))
        r = t.run()
        outcome(cx, t, r, ref.out, "decoding (%s), %d characters: " % (mode, len(d)))
        return "faults%d%s" % (F - t.faults, "".join(sorted(set(t.failed))))
    return h


def file(prog, w, n, F):
    """input from a named file"""
    def h(cx):
        d = sym("s", n)
        t = cli.Tool(cx, [list(b"-w%d" % w), list(b"f")], sym("x", 2), files={"f": d}, faults=F, kinds=KINDS)
        want = cli.wrapped(spec.enc_terms(d), w)
        t.scenario(prog.cfg.name, wanted(t, want))
        r = t.run()
        outcome(cx, t, r, want, "encoding a file, width %s, %d bytes: " % (w, n))
        return "faults%d%s" % (F - t.faults, "".join(sorted(set(t.failed))))
    return h


validation = None


def validate(tier, rng, progs, res):
    cases = [(name, [b"-w3"], bytes(rng.randrange(256) for _ in range(9)), {}) for name in variants(tier)]
    cases += [(name, [b"-w3", f], b"xyz", {"f": b"abcdefgh"}) for name in variants(tier) for f in (b"f", b"g")]
    return cli.compare(res, progs, cases)
