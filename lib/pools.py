"""Values for the scripts: keys, key serial numbers, PINs, account numbers, texts.

Everything is drawn from one random.Random, so a seed fixes a script.  The pools mix structured values
(boundaries of the fields a value is made of) with random ones, and a run reuses the same few values in many
calls, so that an answer that depends on an earlier call shows.
"""
import random

PUBLISHED_BDK = bytes.fromhex("0123456789ABCDEFFEDCBA9876543210")
PUBLISHED_KSN = bytes.fromhex("FFFF9876543210E00000")


class Pools:
    def __init__(self, seed, name):
        self.r = random.Random(f"{seed}/{name}")
        self.keys = {n: [self.key(n) for _ in range(9)] for n in (8, 16, 24, 32)}
        self.ids10 = [self.raw(10) for _ in range(4)] + [PUBLISHED_KSN, bytes(10), b"\xff" * 10]
        self.ids12 = [self.raw(12) for _ in range(4)] + [bytes.fromhex("123456789012345600000000"), bytes(12), b"\xff" * 12]

    # -- plain bytes
    def raw(self, n):
        return bytes(self.r.randrange(256) for _ in range(n))

    def shaped(self, n):
        """bytes with runs of equal ones in them, at the ends or between, or with a period"""
        b = bytearray(self.raw(n))
        if not n:
            return b""
        k = self.r.randrange(9)
        c = self.r.choice((0, 0, 0, 0, 255, 1, 0x80, 0x20, 0x30, self.r.randrange(256)))
        m = self.r.randrange(1, n + 1)
        if k <= 1:
            b[:m] = bytes([c]) * m
        elif k <= 3:
            b[n - m:] = bytes([c]) * m
        elif k == 4:
            b = bytearray([c]) * n
        elif k == 5:
            b = bytearray([c]) * n
            b[self.r.randrange(n)] = self.r.randrange(256)
        elif k == 6:
            b = (b[:m] * n)[:n]
        elif k == 7:
            a, m = sorted((self.r.randrange(n + 1), self.r.randrange(n + 1)))
            b[a:m] = bytes([c]) * (m - a)
        else:
            s = self.r.randrange(256)
            b = bytearray((s + self.r.choice((1, 1, 255, 17)) * i) & 255 for i in range(n))
        return bytes(b)

    def bytes(self, n):
        return self.shaped(n) if self.chance(0.4) else self.raw(n)

    def some(self, *xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    # -- keys
    def key(self, n):
        if n == 0:
            return b""
        if self.chance(0.05):                         # made of keys with which DES has few round keys, their parity bits as they should be or not
            k = b"".join(self.r.choice(WEAK) for _ in range(n // 8))
            return k if self.chance(0.7) else bytes(b ^ 1 if self.chance(0.5) else b for b in k)
        k = self.r.randrange(15)
        if k >= 13:
            return self.shaped(n)
        if k == 0:
            return bytes(n)
        if k == 1:
            return b"\xff" * n
        if k == 2:
            return self.raw(8) * (n // 8)
        if k == 3 and n >= 16:
            h = self.raw(n // 2)
            return h + bytes(255 - b for b in h)
        if k == 4:
            return bytes((b & 0xFE) for b in self.raw(n))
        if k == 5:
            return bytes((b | 1) for b in self.raw(n))
        if k == 6:
            b = bytearray(n)
            b[self.r.randrange(n)] = 1 << self.r.randrange(8)
            return bytes(b)
        if k == 7:
            return (PUBLISHED_BDK * 2)[:n]
        return self.raw(n)

    def apool(self, n):
        return self.key(n) if self.chance(0.25) else self.r.choice(self.keys[n])

    # -- counters
    def counter(self, w, m):
        k = self.r.randrange(14)
        top = (1 << w) - 1
        if k == 0:
            return self.r.randrange(0, 4)
        if k == 1:
            return 1 << self.r.randrange(w)
        if k == 2:
            return (1 << self.r.randrange(w)) | (1 << self.r.randrange(w))
        if k == 3:
            return self.ones(w, m)
        if k == 4:
            return self.ones(w, m + 1)
        if k == 5:
            return ((1 << m) - 1) << (w - m)          # the last one
        if k == 6:
            return max(0, (((1 << m) - 1) << (w - m)) - self.r.randrange(1, 6000))
        if k == 7:
            return min(top, (((1 << m) - 1) << (w - m)) + self.r.randrange(0, 70))
        if k == 8:
            return top - self.r.randrange(0, 3)
        if k == 9:
            b = self.r.randrange(1, w)
            return (1 << b) - 1
        if k == 10:                                   # a run of ones in the middle
            a, b = sorted((self.r.randrange(w + 1), self.r.randrange(w + 1)))
            return (1 << b) - (1 << a)
        if k == 11:
            return self.r.randrange(0, 1 << self.r.randrange(1, w + 1))
        if k == 12:
            return self.ones(w, self.r.randrange(0, w + 1))
        return self.r.randrange(0, top + 1)

    def ones(self, w, n):
        n = min(n, w)
        c = 0
        for b in self.r.sample(range(w), n):
            c |= 1 << b
        return c

    # -- key serial numbers
    def desksn(self, ctr=None, n=10):
        base = self.r.choice(self.ids10) if self.chance(0.7) else self.bytes(10)
        if ctr is None:
            ctr = self.counter(21, 10)
        v = int.from_bytes(base, "big")
        v = v & ~0x1FFFFF | ctr
        return v.to_bytes(10, "big")[10 - n:]

    def aesksn(self, ctr=None):
        base = self.r.choice(self.ids12) if self.chance(0.7) else self.bytes(12)
        if ctr is None:
            ctr = self.counter(32, 16)
        return base[:8] + ctr.to_bytes(4, "big")

    # -- texts and vectors
    def textlen(self, big=True):
        k = self.r.randrange(10)
        if k < 4:
            return self.r.randrange(0, 41)
        if k < 7:
            return max(0, 8 * self.r.randrange(0, 34) + self.r.randrange(-1, 2))
        if k < 9 or not big:
            return self.r.randrange(0, 200)
        return self.r.randrange(200, 1200)

    def longlen(self):
        """lengths around the sizes buffers have"""
        return max(0, self.r.choice((256, 512, 1024, 2048, 4096, 8192, 16384)) + self.r.choice((-17, -16, -9, -8, -1, 0, 1, 7, 8, 15, 16, 17, 500)))

    def text(self, n=None, big=True):
        if n is None:
            n = self.textlen(big)
        k = self.r.randrange(11)
        if k == 8:
            return self.utf8(n)
        if k == 9:                                    # ends that a careless reader cuts off
            t = self.ascii(n)
            e = bytes(self.r.choice(b" \t\r\n\x00\x0b\xa0") for _ in range(min(n, self.r.randrange(1, 6))))
            return e + t[len(e):] if self.chance(0.4) else t[:n - len(e)] + e
        if k == 10 and n:
            t = bytearray(self.ascii(n))
            t[self.r.randrange(n)] = self.r.choice(b"\x00\n\r\x80\xff%\\\"'")
            return bytes(t)
        if k == 0:
            return bytes(self.r.choice(b"0123456789abcdefABCDEF") for _ in range(n))
        if k == 1:
            return bytes(n)
        if k == 2:
            return b"\xff" * n
        if k == 3:
            t = bytearray(self.raw(n))
            for i in range(max(0, n - self.r.randrange(0, 10)), n):
                t[i] = 0
            return bytes(t)
        if k == 4:
            return self.raw(n)[: max(0, n - 1)] + b"\x80"[: min(n, 1)]
        if k in (5, 6):
            return self.ascii(n)
        return self.bytes(n)

    def ascii(self, n):
        return bytes(self.r.randrange(32, 127) for _ in range(n))

    def utf8(self, n):
        """n bytes of valid UTF-8 (nearly: what does not fit is filled with letters)"""
        t = b""
        while len(t) < n:
            c = self.r.choice("a0é€😀ß中\u0660\uff11\u00a0\u2028İſK").encode()
            t += c if len(t) + len(c) <= n else b"x"
        return t

    def off(self, t):
        """t with a small blemish: a blank, a sign, a digit of another script, a character too many or too few"""
        t = bytes(t)
        c = self.r.choice([b" ", b" ", b"\t", b"\n", b"\r\n", b"\x00", b"+", b"-", b".", b",", b"_", b"/", b":", b"x", b"F", b"f", b"A", b"0x",
                           b"\xc2\xa0", "\uff11".encode(), "\u0661".encode(), b"\xff", b"=", b"D", b"="])
        k = self.r.randrange(7)
        if k <= 1:
            return t + c
        if k <= 3:
            return c + t
        if k == 4:
            return c + t + c
        i = self.r.randrange(len(t) + 1)
        if k == 5:
            return t[:i] + c + t[i:]
        return t[:i] + c[:1] + t[i + 1:]

    def near_names(self, t):
        """texts that are nearly the name t: another letter case, a character more or less, other signs between its parts
        (none with letters whose capitals are ASCII letters, like \u0131 and \u017f: whether they count as the same letter is left open)"""
        out = {t, t.upper(), t.lower(), t.title(), t.swapcase(), t + t, t[::-1], t + "\x00", "\x00" + t, 
               t.replace("A", "\uff21"), t.replace("1", "\uff11"), t.replace("0", "O"), t.replace("1", "I"), t.replace("O", "0")}
        parts = [x for x in __import__("re").split(r"(\d+)|[-_ ]", t) if x]
        for c in "-_ ./:=":
            out |= {t.replace("-", c), c.join(parts), t + c, c + t}
        for c in ("", "--"):
            out |= {t.replace("-", c), c.join(parts)}
        for c in ("\t", "\n", "\r\n", "0", "1", "x", "s", "\u00a0", "\ufeff"):
            out |= {t + c, c + t}
        for i in range(len(t)):
            out |= {t[:i] + t[i + 1:], t[:i], t[i:], t[:i] + t[i] + t[i:], t[:i] + chr(ord(t[i]) ^ 1) + t[i + 1:], t[:i] + chr(ord(t[i]) ^ 0x20) + t[i + 1:],
                    t[:i] + t[i + 1:i + 2] + t[i] + t[i + 2:]}
        for q in parts:
            out |= {q, q.lower()}
            if q.isdigit():
                for n in (int(q) - 1, int(q) + 1, int(q) // 2, int(q) * 2, int(q) // 8, "0" + q, "0x" + q, "+" + q):
                    out.add(t.replace(q, str(n)))
        return sorted(out)

    def near(self, t):
        return self.r.choice(self.near_names(t))

    def nearhex(self, t):
        """a hexadecimal text with a small blemish, most of it still readable"""
        t = bytes(t)
        k = self.r.randrange(8)
        i = self.r.randrange(len(t) + 1)
        if k == 0:
            return t + bytes([self.r.choice(b"0aF g\n\x00")])
        if k == 1:
            return t + self.r.choice([b"zz", b"  ", b"\r\n", b"0x", b"h", b"==", b"g0", b"0g"])
        if k == 2:
            return self.r.choice([b"0x", b" ", b"x", b"\\x", b"#", b"0X", b"\n"]) + t
        if k == 3:
            return t[:-1]
        if k == 4:
            return t[:i] + self.r.choice([b" ", b":", b"-", b"g", b"G", b"\xff", b"  "]) + t[i:]
        if k == 5:
            return t[:i] + bytes([self.r.choice(b"gG/:@`O l\x00\x80")]) + t[i + 1:]
        if k == 6:
            j = len(t) - self.r.randrange(0, min(3, len(t)) + 1)
            return t[:j] + bytes([self.r.choice(b"gz-")]) + t[j + 1:]
        return t[: self.r.randrange(len(t) + 1)]

    def iv(self, block):
        k = self.r.randrange(10)
        if k < 2:
            return b""
        if k < 7:
            return self.r.choice([bytes(block), b"\xff" * block, self.raw(block)])
        return self.raw(self.r.randrange(0, 2 * block + 5))

    def action(self):
        return self.r.choice(["request", "request", "response", "response", "response", "",
                              "Response", "RESPONSE", "response ", "verify", "generation", "req", self.near(self.some("request", "response"))])

    # -- PINs and account numbers
    def pin(self, lo=4, hi=12):
        n = self.r.randrange(lo, hi + 1)
        if self.chance(0.2):
            return bytes(self.r.choice(b"09") for _ in range(n))
        return bytes(self.r.choice(b"0123456789") for _ in range(n))

    def pan(self, lo=13, hi=19):
        n = self.r.randrange(lo, hi + 1)
        if self.chance(0.15):
            return bytes([self.r.choice(b"09")]) * n
        return bytes(self.r.choice(b"0123456789") for _ in range(n))


WEAK = [bytes.fromhex(k) for k in (
    "0101010101010101 FEFEFEFEFEFEFEFE E0E0E0E0F1F1F1F1 1F1F1F1F0E0E0E0E 011F011F010E010E 1F011F010E010E01 01E001E001F101F1 E001E001F101F101 "
    "01FE01FE01FE01FE FE01FE01FE01FE01 1FE01FE00EF10EF1 E01FE01FF10EF10E 1FFE1FFE0EFE0EFE FE1FFE1FFE0EFE0E E0FEE0FEF1FEF1FE FEE0FEE0FEF1FEF1").split()]
SAYINGS = [b"invalid dukpt machine", b"not found", b"already exists", b"machine not found", b"error", b"unknown", b"null", b"nil", b"undefined",
           b"make next ksn: not found(x)", b"panic", b"%s%v%d", b"ErrNotFound", b"\"error\":\"\"", b"transaction already counter exhausted"]
DES_FORMATS = ["ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4",
               "VISA1", "VISA2", "VISA3", "VISA4"]
AES_TYPES = {16: "AES128", 24: "AES192", 32: "AES256"}
HMAC_TYPES = {16: "HMAC128", 24: "HMAC192", 32: "HMAC256"}


def ints(b):
    return list(b)
