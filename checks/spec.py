"""The specification the code is compared with.

Symbolic side: RFC 4648 written as terms.  Concrete side: an independent
oracle (plain Python) used to predict what a replay on the real build must
print.
"""

from engine import terms as tm

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
ENC = tuple(ALPHA)
PAD = 61
VAL = [None] * 256
for _i, _c in enumerate(ALPHA):
    VAL[_c] = _i
VALT = tuple(0 if v is None else v for v in VAL)
VALIDT = tuple(0 if v is None else 1 for v in VAL)


# ------------------------------------------------------------------ terms

def enc_terms(s, final=True):
    """encoding of byte terms; final=False: complete groups only"""
    out = []
    n = len(s)
    for i in range(0, n, 3):
        g = list(s[i:i + 3])
        k = len(g)
        if k < 3 and not final:
            break
        t = tm.concat([(8, x) for x in g] + [(8, 0)] * (3 - k))
        for j in range(4):
            if j <= k:
                x = tm.ext(t, 23 - 6 * j, 18 - 6 * j) if type(t) is not int else (t >> (18 - 6 * j)) & 63
                out.append(ENC[x] if type(x) is int else tm.tbl(8, ENC, x))
            else:
                out.append(PAD)
    return out


def enc_prefix_terms(s):
    """characters that are determined once the bytes s have been fed (stream, not finalised):
    all of the characters whose six bits are complete"""
    full = enc_terms(s, True)
    return full[:len(s) * 8 // 6]


def is_valid(c):
    return VALIDT[c] if type(c) is int else tm.tbl(1, VALIDT, c)


def value(c):
    return VALT[c] if type(c) is int else tm.tbl(8, VALT, c)


class RefDec:
    """Reference stream decoder on terms; decisions are taken through cx.branch.

    Judges bytes in order; after the first byte that breaks the grammar, or
    after the padding is complete, everything that follows is an error.
    """

    def __init__(self, cx):
        self.cx = cx
        self.vals = []          # values of the current, incomplete group
        self.mode = 0           # 0 running, 1 one '=' of two seen, 2 complete, 3 failed
        self.out = []

    def _emit(self):
        k = len(self.vals)
        v = self.vals
        if k == 2:
            a, b, sh = v[0], v[1], (2, 4)
        elif k == 3:
            a, b, sh = v[1], v[2], (4, 2)
        else:
            a, b, sh = v[2], v[3], (6, 0)
        if type(a) is int and type(b) is int:
            self.out.append(((a << sh[0]) | (b >> sh[1])) & 255)
        else:
            self.out.append(tm.bor(8, tm.shl(8, a, sh[0]), tm.lshr(8, b, sh[1])))

    def feed(self, chunk):
        """returns expected return value; new output is appended to self.out"""
        cx = self.cx
        if self.mode in (2, 3):
            return 0 if chunk else None
        if not chunk:
            return 1 if self.mode == 0 else None
        n = len(chunk)
        for i, c in enumerate(chunk):
            if self.mode == 1:
                self.mode = 2
                if cx.branch(tm.eq(8, c, PAD)) and i == n - 1:
                    return 1
                self.mode = 3
                return 0
            if cx.branch(is_valid(c)):
                self.vals.append(value(c))
                k = len(self.vals)
                if k >= 2:
                    self._emit()
                if k == 4:
                    self.vals = []
                continue
            pad = cx.branch(tm.eq(8, c, PAD))
            k = len(self.vals)
            if pad and k == 3:
                self.mode = 2 if i == n - 1 else 3
                self.vals = []
                return 1 if i == n - 1 else 0
            if pad and k == 2:
                self.mode = 1
                continue
            self.mode = 3
            return 0
        return 1

    def whole(self):
        """would the input fed so far be complete?"""
        return (self.mode == 0 and not self.vals) or self.mode == 2


class Conc:
    """stands in for a context when the reference runs on concrete bytes"""

    @staticmethod
    def branch(c):
        return c


def ref_encode(b):
    return bytes(enc_terms(list(b)))


def ref_decode(b):
    """(ret, output) of the one-shot decoder"""
    r = RefDec(Conc)
    ret = r.feed(list(b)) if len(b) else 1
    if ret and not r.whole():
        ret = 0
    return ret, bytes(r.out)
