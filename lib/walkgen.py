"""Walks along the key serial numbers (drv mode "walk")."""
from pools import ints


def popcount_le(w, m):
    """how many w-bit counters have at most m ones"""
    from math import comb
    return sum(comb(w, k) for k in range(0, min(w, m) + 1))


def nth_valid(w, m, n):
    """the n-th (from 0) w-bit counter with at most m ones"""
    c = 0
    for i in range(w - 1, -1, -1):
        below = popcount_le(i, m)
        if n >= below:
            n -= below
            c |= 1 << i
            m -= 1
    return c


def line(alg, ik, ksn, steps, keys):
    return {"alg": alg, "ik": ints(ik), "ksn": ints(ksn), "steps": steps, "keys": keys}


def starts(p, w, m, n):
    """counters to start from: the beginning, the end, and everywhere in between, valid or not"""
    total = popcount_le(w, m)
    out = [0, 1, nth_valid(w, m, total - 20), nth_valid(w, m, total - 1), (1 << w) - 1]
    while len(out) < n:
        k = p.r.randrange(4)
        if k == 0:
            out.append(p.counter(w, m))
        elif k == 1:
            out.append(nth_valid(w, m, total - 1 - p.r.randrange(1, 3000)))
        else:
            out.append(nth_valid(w, m, p.r.randrange(total)))
    return out


def des_keys(p, n, steps):
    return [line("des", p.apool(16), p.desksn(c), steps, True) for c in starts(p, 21, 10, n)]


def aes_keys(p, n, steps):
    return [line("aes", p.apool(p.r.choice((16, 24, 32))), p.aesksn(c), steps, True) for c in starts(p, 32, 16, n)]


def des(p, n, steps):
    """thorough: 16 walks of 2^16 steps, which together are every valid counter there is"""
    if steps > 60000:
        return [line("des", bytes(16), p.desksn(nth_valid(21, 10, i << 16)), steps, False) for i in range(16)]
    return [line("des", bytes(16), p.desksn(c), steps, False) for c in starts(p, 21, 10, n)]


def aes(p, n, steps):
    return [line("aes", bytes(16), p.aesksn(c), steps, False) for c in starts(p, 32, 16, n)]


def every_des(p, n):
    """all 2^21 counters, each run in another KSN"""
    out = []
    for c in range(0, 1 << 21, n):
        k = int.from_bytes(p.desksn(0), "big") & ~0x1FFFFF
        m = p.some(10, 10, 10, 8, 4, p.r.randrange(4, 11))
        out.append({"alg": "des", "ksn": ints(k.to_bytes(10, "big")[10 - m:]), "hi": c >> 16, "lo": c & 0xFFFF, "n": n})
    return out


def aes_runs(p, runs, n):
    """runs of neighbours at every place where something changes, and anywhere"""
    cs = [0, 0xFFFFFFFF, 0xFFFF0000, 0xFFFE8000] + [1 << i for i in range(32)] + [(1 << i) - 1 for i in range(32)]
    cs += [((1 << 16) - 1) << i for i in range(16)] + [((1 << 17) - 1) << i for i in range(15)]
    while len(cs) < runs:
        k = p.r.randrange(5)
        if k == 0:
            hi = sum(1 << i for i in p.r.sample(range(16), p.r.randrange(12, 17)))
            cs.append(hi << 16 | p.r.randrange(65536))
        elif k == 1:
            cs.append(sum(1 << i for i in p.r.sample(range(32), p.r.randrange(14, 19))))
        elif k == 2:
            cs.append(nth_valid(32, 16, p.r.randrange(popcount_le(32, 16))))
        else:
            cs.append(p.r.getrandbits(32))
    out = []
    for c in cs:
        lo = min(max(0, (c & 0xFFFF) - p.r.randrange(n)), 65536 - n)
        out.append({"alg": "aes", "ksn": ints(p.aesksn(0)), "hi": c >> 16, "lo": lo, "n": n})
    return out


def cube(p, alg, dims):
    """a base counter, and bits below all its ones"""
    w = 21 if alg == "des" else 32
    dims = min(dims, w)
    k = p.r.randrange(4)
    if k == 0:                                    # neighbours, the whole counter below them zero
        lowest = p.r.randrange(w - dims + 1)
        free = list(range(lowest + 1, lowest + dims + 1))
    elif k == 1:
        free = list(range(w - dims + 1, w + 1))
    else:
        free = sorted(p.r.sample(range(1, w + 1), dims))
    c = sum(1 << (w - i) for i in range(1, free[0]) if p.chance(0.4))
    if alg == "des":
        n = p.some(10, 10, 10, 8, 4, p.r.randrange(3, 10))
        return {"alg": alg, "ik": ints(p.apool(16)), "ksn": ints(p.desksn(c, n)), "free": free}
    return {"alg": alg, "ik": ints(p.apool(p.r.choice((16, 24, 32)))), "ksn": ints(p.aesksn(c)), "free": free}


def des_cubes(p, n, dims):
    return [cube(p, "des", dims) for _ in range(n)]


def aes_cubes(p, n, dims):
    return [cube(p, "aes", dims) for _ in range(n)]
