"""The replay script language, executed by the symbolic engine on concrete values.

Used to validate the translator against the real build (same script, same
output expected) and as a stand-in where the real build cannot run here.
"""

from engine import core


class Died(Exception):
    pass


STATE_SIZE = 64


def interp(prog, ops):
    cx = core.Cx(prog)
    prog.setup(cx)
    buf = {}
    st = {}
    out = []
    W = cx.P // 8
    nev = 0

    def signed(v):
        return v - (1 << 32) if v & 0x80000000 else v

    for op in ops:
        f = op.split()
        a = f[1:]
        if f[0] == "buf":
            n = int(a[1])
            b = list(bytes.fromhex(a[4])) if len(a) > 4 else []
            b += [0xA5] * (n - len(b))
            buf[int(a[0])] = cx.alloc(n, "buf" + a[0], b, misalign=int(a[3]) & 7)
        elif f[0] == "const":
            buf[int(a[0])].const = True
        elif f[0] == "sfill":
            st[int(a[0])] = cx.alloc(STATE_SIZE, "st" + a[0], int(a[1]))
        elif f[0] == "sset":
            b = list(bytes.fromhex(a[1]))[:STATE_SIZE]
            st[int(a[0])] = cx.alloc(STATE_SIZE, "st" + a[0], b + [0] * (STATE_SIZE - len(b)))
        elif f[0] in ("einit", "dinit"):
            s = st.setdefault(int(a[0]), None) or cx.alloc(STATE_SIZE, "st" + a[0], 0)
            st[int(a[0])] = s
            prog.call(cx, "base64_stream_encode_init" if f[0] == "einit" else "base64_stream_decode_init", s.base,
                      int(a[1]) & 0xffffffff)
        elif f[0] in ("senc", "sdec", "sfin", "enc", "dec"):
            ol = cx.alloc(W, "outlen")
            cx.store(ol.base, 0x5ca1ab1e, W)
            r = 0
            if f[0] in ("senc", "sdec"):
                s, b, bo, n, o, oo = [int(x) for x in a]
                r = prog.call(cx, "base64_stream_encode" if f[0] == "senc" else "base64_stream_decode", st[s].base,
                              buf[b].base + bo, n, buf[o].base + oo, ol.base)
            elif f[0] == "sfin":
                s, o, oo = [int(x) for x in a]
                prog.call(cx, "base64_stream_encode_final", st[s].base, buf[o].base + oo, ol.base)
            else:
                b, bo, n, o, oo, fl = [int(x) for x in a]
                r = prog.call(cx, "base64_encode" if f[0] == "enc" else "base64_decode", buf[b].base + bo, n,
                              buf[o].base + oo, ol.base, fl & 0xffffffff)
            if r is None or f[0] in ("senc", "enc", "sfin"):
                r = 0
            out.append("r %d %d" % (signed(cx.val(r)), cx.val(cx.load(ol.base, W))))
        elif f[0] == "dump":
            i, o, n = [int(x) for x in a]
            out.append("d " + bytes(cx.val(x) for x in cx.bytes_at(buf[i].base + o, n)).hex() if n else "d ")
        elif f[0] == "margin":
            out.append("margin 1")
        if [e for e in cx.events[nev:] if e[0] in ("oob", "wild", "uaf", "constwrite")]:
            out.append("SIGNAL 11")
            return out
        nev = len(cx.events)
    return out
