"""Batches of library calls that have much in common (drv mode "par")."""
from libgen import ALL_OPS, BYTE_ARGS, TEXT_ARGS, any_valid
from pools import Pools, AES_TYPES, HMAC_TYPES, ints


class Narrow(Pools):
    """Few keys, one of which is the beginning of the longer ones, and few key serial numbers."""

    def __init__(self, p):
        self.r = p.r
        k = [p.raw(32), p.raw(32)]
        self.keys = {n: [x[:n] for x in k] for n in (8, 16, 24, 32)}
        self.ids10 = [p.raw(10)]
        self.ids12 = [p.raw(12)]
        self.ctrs = {21: [p.counter(21, 10) for _ in range(3)], 32: [p.counter(32, 16) for _ in range(3)]}
        self.ivs = {8: [p.raw(8), b""], 16: [p.raw(16), b""]}
        self.texts = [p.text(p.r.randrange(0, 60)) for _ in range(3)] + [p.raw(p.r.choice((8, 16, 32)))]

    def apool(self, n):
        return self.r.choice(self.keys[n])

    def desksn(self, ctr=None, n=10):
        return Pools.desksn(self, self.r.choice(self.ctrs[21]) if ctr is None else ctr, 10)

    def aesksn(self, ctr=None):
        b = self.ids12[0]
        return b[:8] + (self.r.choice(self.ctrs[32]) if ctr is None else ctr).to_bytes(4, "big")

    def raw(self, n):
        return self.r.choice(self.keys[32])[:n] if n <= 32 and self.chance(0.3) else Pools.raw(self, n)

    def iv(self, block):
        return self.r.choice(self.ivs[block])

    def text(self, n=None, big=True):
        return self.r.choice(self.texts)


def alike(p, v):
    """bytes that agree with v in a part of it, or in their sum, or as a set"""
    k = p.r.randrange(6)
    h = len(v) // 2
    if k == 0:
        return v[:h] + [p.r.randrange(48, 58) if 48 <= b < 58 else p.r.randrange(256) for b in v[h:]]
    if k == 1:
        return [p.r.randrange(48, 58) if 48 <= b < 58 else p.r.randrange(256) for b in v[:h]] + v[h:]
    if k == 2:
        return v[h:] + v[:h]
    if k == 3:
        return v[::-1]
    i, j = p.r.randrange(len(v)), p.r.randrange(len(v))
    v = list(v)
    if k == 4:
        v[i], v[j] = v[j], v[i]
    elif i != j:
        b = 1 << p.r.randrange(8)
        v[i] ^= b
        v[j] ^= b
    return v


# Narrow draws its first values from a plain pool, whose methods must exist before its own
def variant(p, o):
    """the same call with one argument changed"""
    o = dict(o)
    fs = [f for f in BYTE_ARGS + TEXT_ARGS + ["action", "type"] if f in o]
    if p.chance(0.3):                                  # the same in a row, divided at another place
        ends = [(a, b) for a, b in (("pin", "pan"), ("pan", "fmt"), ("text", "iv"), ("key", "text"), ("key", "ksn"), ("ksn", "text"), ("pan", "pin"))
                if o.get(a) and o.get(b) and isinstance(o[a], list) and isinstance(o[b], list)]
        if ends:
            a, b = ends[0] if p.chance(0.5) else p.r.choice(ends)
            v, n = o[a] + o[b], len(o[a]) + p.some(-1, 1, -2, 2)
            if 0 < n < len(v):
                o[a], o[b] = v[:n], v[n:]
                return o
    f = p.r.choice(fs)
    if f == "action":
        o[f] = p.action()
    elif f == "type":
        o[f] = p.r.choice(list(AES_TYPES.values()) + list(HMAC_TYPES.values()) + [""])
    elif o[f]:
        v = list(o[f])
        k = p.r.randrange(8)
        if k == 0:
            v.pop()
        elif k == 1 and f in BYTE_ARGS:
            v.append(p.r.randrange(256))
        elif k >= 6:
            v = alike(p, v)
        elif f in BYTE_ARGS:
            v[-1 - min(len(v) - 1, p.r.choice((0, 0, 1, p.r.randrange(40))))] ^= 1 << p.r.randrange(8)
        elif f == "text":
            v[p.r.randrange(len(v))] ^= 1
        else:
            i = p.r.randrange(len(v))
            v[i] = p.r.choice(b"0123456789") if f != "fmt" else v[i]
        o[f] = v
    return o


def batch(p, size, only=None):
    q = Narrow(p)
    some = only or p.r.sample(ALL_OPS, p.r.randrange(1, 6)) if p.chance(0.6) else ALL_OPS
    calls = []
    while len(calls) < size:
        o = any_valid(q, p.r.choice(list(some)))
        calls.append(o)
        while p.chance(0.5) and len(calls) < size:
            calls.append(variant(p, p.r.choice(calls)))
    return {"calls": calls, "threads": 8, "rounds": p.r.choice((2, 4, 8)), "share": p.chance(0.7)}


def batches(p, n, size):
    return [batch(p, p.r.randrange(size // 2, size + 1)) for _ in range(n)]


def schedules(p, n, size, each):
    return [dict(batch(p, p.r.randrange(4, size + 1)), threads=0, schedules=each, seed=p.r.randrange(1 << 30)) for _ in range(n)]


def only(*ops):
    """batches of these operations"""
    def gen(p, n, size):
        return [batch(p, p.r.randrange(size // 2, size + 1), ops) for _ in range(n)]
    gen.__name__ = "batches of " + ", ".join(ops)
    return gen


def long(*ops):
    """a few calls of each operation, made again and again"""
    def gen(p, n, rounds):
        out = []
        for _ in range(n):
            for op in ops:
                q = Narrow(p)
                calls = [any_valid(q, op)]
                while len(calls) < 3:
                    calls.append(variant(p, calls[0]))
                out.append({"calls": calls, "threads": 8, "rounds": rounds, "share": False})
        return out
    gen.__name__ = "long batches of " + ", ".join(ops)
    return gen


def firsts(p, n, ops=ALL_OPS):
    """The calls of processes that make them first at the same time: some calls of every operation each."""
    out = []
    for i in range(n):
        q = Narrow(p)
        calls = []
        for op in ops:
            calls.append(any_valid(q, op))
            while len(calls) % 2 or p.chance(0.2):
                calls.append(variant(p, calls[-1]))
        out.append({"calls": calls, "threads": 0, "share": p.chance(0.5), "seed": p.r.randrange(1 << 30),
                    "first": ("together", "interrupted")[i % 2]})
    return out
