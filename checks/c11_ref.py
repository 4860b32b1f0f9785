"""What a replay script must print according to the specification (used to judge replays of whole scripts)."""

from . import spec


def expected(ops):
    """expected lines of a script whose codecs are all available; None where the specification leaves the result open"""
    buf = {}
    st = {}
    out = []
    for op in ops:
        f = op.split()
        a = f[1:]
        if f[0] == "buf":
            d = bytearray(bytes.fromhex(a[4])) if len(a) > 4 else bytearray()
            buf[a[0]] = d + bytearray([0xA5]) * (int(a[1]) - len(d))
        elif f[0] in ("einit", "dinit"):
            st[a[0]] = bytearray() if f[0] == "einit" else spec.RefDec(spec.Conc)
        elif f[0] == "senc":
            s = st[a[0]]
            so, n, oo = int(a[2]), int(a[3]), int(a[5])
            b = len(s) * 8 // 6
            s += buf[a[1]][so:so + n]
            t = spec.ref_encode(bytes(s))[b:len(s) * 8 // 6]
            buf[a[4]][oo:oo + len(t)] = t
            out.append("r 0 %d" % len(t))
        elif f[0] == "sfin":
            s = st[a[0]]
            oo = int(a[2])
            t = spec.ref_encode(bytes(s))[len(s) * 8 // 6:]
            buf[a[1]][oo:oo + len(t)] = t
            out.append("r 0 %d" % len(t))
        elif f[0] == "sdec":
            s = st[a[0]]
            so, n, oo = int(a[2]), int(a[3]), int(a[5])
            b = len(s.out)
            r = s.feed(list(buf[a[1]][so:so + n]))
            t = bytes(s.out[b:])
            buf[a[4]][oo:oo + len(t)] = t
            out.append(None if r is None else "r %d %d" % (r, len(t)))
        elif f[0] in ("enc", "dec"):
            so, n, oo = int(a[1]), int(a[2]), int(a[4])
            x = bytes(buf[a[0]][so:so + n])
            r, t = (0, spec.ref_encode(x)) if f[0] == "enc" else spec.ref_decode(x)
            buf[a[3]][oo:oo + len(t)] = t
            out.append("r %d %d" % (r, len(t)))
        elif f[0] == "dump":
            out.append("d " + bytes(buf[a[0]][int(a[1]):int(a[1]) + int(a[2])]).hex())
        elif f[0] == "margin":
            out.append("margin 1")
    return out
