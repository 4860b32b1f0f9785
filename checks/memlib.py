"""Shared by the memory-safety checks: which recorded accesses count, and how they are replayed."""

from engine import build, core
from . import replay, script, frame

BAD = ("oob", "wild", "uaf", "constwrite")
TEXT = {"oob": "access outside the object", "wild": "access to unmapped memory", "uaf": "use after free",
        "constwrite": "write to read-only memory"}


def bad_events(cx):
    return [e for e in cx.events if e[0] in BAD]


def describe(e):
    rw = "write" if e[1] == "w" else "read"
    if e[0] == "wild":
        return "%s of %d bytes at unmapped address" % (rw, e[3])
    return "%s: %s of %s bytes at offset %s of %s" % (TEXT[e[0]], rw, e[4], e[3], e[2])


def prove_clean(cx, what):
    """assertion: no access left its object on this path"""
    cx.obl += 1
    b = bad_events(cx)
    if b:
        raise core.Violation("%s: %s" % (what, describe(b[0])), dict(cx.model), cx)


def both_ends(ops):
    """the script with every buffer against a guard page at its end, then again at its start"""
    out = list(ops)
    for o in ops:
        f = o.split(" ")
        if f[0] == "buf":
            f[3] = "s"
        out.append(" ".join(f))
    return out


def confirm(sc):
    if "long" in sc:
        from . import longlib
        return longlib.confirm(sc)
    st, text = replay.confirm(sc)
    if st == "confirmed":
        return st, text
    if build.CONFIGS[sc["cfg"]].target in (None, "i686-linux-gnu"):
        try:
            got = replay.run_script(sc["cfg"], sc["ops"], ("-fsanitize=address", "-g"),
                                    {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:exitcode=99:abort_on_error=0"})
            if any(g == "EXIT 99" for g in got):
                return "confirmed", "AddressSanitizer reports an error on the real build"
        except (build.BuildError, replay.NoReplay, OSError):
            pass
    prog = frame.PROGS.get(sc["cfg"])
    if prog is None:
        prog = build.program(sc["cfg"])
        frame.PROGS[sc["cfg"]] = prog
    got = script.interp(prog, sc["ops"])
    if any(g.startswith("SIGNAL") for g in got):
        return "confirmed", "the concrete input performs the access in the encoding (no guard page can see it on the real build)"
    return st, text
