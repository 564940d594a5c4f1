"""Batches of unified operations (drv mode "uni")."""
from pools import ints, DES_FORMATS, AES_TYPES, HMAC_TYPES
from pargen import Narrow, alike
from svcgen import hexcase

OPS = ["ik", "tk", "ep", "dp", "mac", "en", "de", "valid"]
USES = {"ik": ["bdk", "ksn"], "tk": ["ik", "ksn"], "ep": ["tk", "ksn", "pin", "pan", "fmt"], "dp": ["tk", "ksn", "pin", "pan", "fmt"],
        "mac": ["tk", "ksn", "text"], "en": ["tk", "ksn", "iv", "text"], "de": ["tk", "ksn", "iv", "ct"], "valid": []}
HEXED = {"bdk", "ksn", "ik", "tk", "iv", "ct"}
TEXTS = ["bdk", "ksn", "ik", "tk", "pin", "pan", "fmt", "text", "ct", "iv"]
ALGS = ["", "DES", "AES", "Aes", "tdes", "des ", " aes", "aes128", "aes\n", "rsa", "hmac"]


def value(p, f, op, aes, size):
    bl = 16 if aes else 8
    if f in ("bdk", "ik", "tk"):
        return hexcase(p, p.apool(size if aes else 16)).encode()
    if f == "ksn":
        return hexcase(p, p.aesksn() if aes else p.desksn(n=p.some(10, 10, 10, p.r.randrange(1, 11)))).encode()
    if f == "pin":
        return hexcase(p, p.bytes(bl)).encode() if op == "dp" else p.pin(4, 12)
    if f == "pan":
        return p.pan()
    if f == "fmt":
        t = p.r.choice(DES_FORMATS)
        return (t.lower() if p.chance(0.2) else t).encode()
    if f == "iv":
        return hexcase(p, p.iv(bl)).encode()
    if f == "ct":
        return hexcase(p, p.bytes(bl * p.r.randrange(0, 5)) if p.chance(0.8) else p.bytes(p.r.randrange(0, 60))).encode()
    return p.text(p.r.randrange(0, 80), big=False)


def call(p, op=None, alg=None):
    op = op or p.r.choice(OPS)
    alg = alg if alg is not None else p.some("des", "des", "aes", "aes", "aes", p.r.choice(ALGS))
    aes = alg == "aes"
    size = p.r.choice((16, 24, 32))
    q = {"alg": alg, "keytype": "", "mactype": "", "action": p.action()}
    mac = p.some("cmac", "hmac")
    if aes or p.chance(0.3):
        q["keytype"] = (HMAC_TYPES if op == "mac" and mac == "hmac" else AES_TYPES)[size]
        if p.chance(0.06):
            q["keytype"] = p.r.choice(["", "aes128", "AES", *AES_TYPES.values(), *HMAC_TYPES.values()])
    if op == "mac" or p.chance(0.2):
        q["mactype"] = mac if p.chance(0.9) else p.some("", "CMAC", "HMAC", "mac", "hmac ")
    for f in TEXTS:
        q[f] = ints(value(p, f, op, aes, size) if f in USES[op] or p.chance(0.2) else b"")
    return {"op": op, "p": q}


def spoil(p, c):
    """one value with a blemish, or missing, or of another algorithm"""
    fs = USES[c["op"]]
    if not fs:
        return c
    f = p.r.choice(fs)
    v = bytes(c["p"][f])
    k = p.r.randrange(8)
    hexed = f in HEXED or (f == "pin" and c["op"] == "dp")
    if k == 0:
        v = b""
    elif k == 1 and hexed:
        v = p.bytes(p.r.randrange(0, 40)).hex().encode()
    elif k == 2:
        v = p.text(p.r.randrange(0, 40), big=False)
    elif k == 3:
        v = value(p, f, c["op"], c["p"]["alg"] != "aes", p.r.choice((16, 24, 32)))
    else:
        v = (p.nearhex if hexed else p.off)(v)
    c["p"][f] = ints(v)
    return c


def crossed(p):
    """what is right for one algorithm, given to another one"""
    if p.chance(0.7):
        c = call(p, alg="aes")
        c["p"]["alg"] = p.some("des", "des", p.r.choice(ALGS))
    else:
        c = call(p, alg="des")
        c["p"]["alg"] = "aes"
        c["p"]["keytype"] = p.r.choice([*AES_TYPES.values(), *HMAC_TYPES.values()])
    c["p"]["fmt"] = ints(p.some("ISO-4", "iso-4", "ISO-0", p.r.choice(DES_FORMATS)).encode())
    c["p"]["pan"] = ints(p.pan())
    return c


def unified(p, n):
    out, calls = [], []
    for op in OPS:
        for alg in ["des", "aes"] + ALGS:
            calls.append(call(p, op, alg))
    while len(calls) < n:
        c = crossed(p) if p.chance(0.1) else call(p)
        if p.chance(0.3):
            c = spoil(p, c)
        if c["op"] == "valid" and p.chance(0.7):
            continue
        calls.append(c)
    p.r.shuffle(calls)
    return [{"calls": calls[i:i + 40], "threads": 4} for i in range(0, len(calls), 40)]


def narrow(p, n):
    """batches whose calls have much in common, and differ in one value"""
    out = []
    while n > 0:
        q = Narrow(p)
        calls = []
        ops = p.r.sample(OPS[:-1], p.r.randrange(1, 4))
        while len(calls) < 40:
            calls.append(call(q, p.r.choice(ops)))
            while p.chance(0.5):
                c = p.r.choice(calls)
                c = {"op": c["op"], "p": dict(c["p"])}
                k = p.r.randrange(7)
                if k == 6:
                    f = p.r.choice(USES[c["op"]])
                    v = bytes(c["p"][f])
                    if f in HEXED and v and len(v) % 2 == 0:
                        try:
                            c["p"][f] = ints(bytes(alike(p, list(bytes.fromhex(v.decode())))).hex().encode())
                        except ValueError:
                            pass
                elif k == 0:
                    c["p"]["action"] = p.action()
                elif k == 1:
                    c["p"]["mactype"] = p.some("cmac", "hmac", "")
                elif k == 2:
                    c["p"]["alg"] = p.some("des", "aes", "tdes")
                elif k == 3:
                    c["p"]["keytype"] = p.r.choice(list(AES_TYPES.values()) + list(HMAC_TYPES.values()) + [""])
                else:
                    f = p.r.choice(USES[c["op"]])
                    v = bytes(c["p"][f])
                    if v:
                        i = p.r.choice((0, len(v) - 1, p.r.randrange(len(v))))
                        d = p.r.choice(b"0123456789abcdef" if f in HEXED else b"0123456789")
                        c["p"][f] = ints(v[:i] + bytes([d]) + v[i + 1:])
                calls.append(c)
        out.append({"calls": calls, "threads": 8})
        n -= 40
    return out


def unreadable(p, n):
    """every value of every operation, spoiled in every way"""
    calls = []
    while len(calls) < n:
        for op in OPS[:-1]:
            for alg in ("des", "aes"):
                calls.append(spoil(p, call(p, op, alg)))
    return [{"calls": calls[i:i + 40], "threads": 2} for i in range(0, len(calls), 40)]


def names(p, n):
    """names that are nearly those of algorithms, formats, key types, MACs, actions"""
    calls = []
    for op in OPS:
        for alg in ("des", "aes"):
            for x in p.near_names(alg):
                c = call(p, op, alg)
                c["p"]["alg"] = x
                calls.append(c)
    for f in DES_FORMATS:
        for x in p.near_names(f):
            c = call(p, p.some("ep", "dp"), "des")
            c["p"]["fmt"] = ints(x.encode())
            calls.append(c)
    for t in [*AES_TYPES.values(), *HMAC_TYPES.values()]:
        for x in p.near_names(t):
            c = call(p, p.some("ep", "dp", "mac", "en", "de"), "aes")
            c["p"]["keytype"] = x
            calls.append(c)
    for t in ("cmac", "hmac"):
        for x in p.near_names(t):
            for alg in ("des", "aes"):
                c = call(p, "mac", alg)
                c["p"]["mactype"] = x
                calls.append(c)
    for t in ("request", "response"):
        for x in p.near_names(t):
            for alg in ("des", "aes"):
                c = call(p, p.some("mac", "en", "de"), alg)
                c["p"]["action"] = x
                calls.append(c)
    p.r.shuffle(calls)
    return [{"calls": calls[i:i + 40], "threads": 2} for i in range(0, min(n, len(calls)), 40)]
