"""Scripts of service histories (drv mode "svc"; also the source of the HTTP scripts)."""
from pools import Pools, DES_FORMATS, AES_TYPES, SAYINGS, ints


def hexcase(p, b):
    h = b.hex()
    k = p.r.randrange(4)
    if k == 0:
        return h.upper()
    if k == 1:
        return "".join(c.upper() if p.chance(0.5) else c for c in h)
    return h


def base(p, alg=None, size=None, ctr=None, n=10):
    alg = alg or p.some("des", "des", "aes")
    if alg == "aes":
        size = size or p.r.choice((16, 24, 32))
        k, akey, ksn = p.apool(size), AES_TYPES[size], p.aesksn(ctr)
    else:
        k, akey, ksn = p.apool(16), p.some("", "", "AES128", "x"), p.desksn(ctr, n)
    return {"alg": alg, "akey": akey, "bdk": ints(hexcase(p, k).encode()), "ksn": ints(hexcase(p, ksn).encode())}


def counted(t, c):
    """t with other counter bits: a few changed, or another counter"""
    n = 21 if len(t) != 24 else 32
    try:
        v = int(t, 16)
    except ValueError:
        return ints(t.encode())
    low = v & ((1 << n) - 1)
    # half of the time only in its high bits
    c = c if c & 1 else (low & 0xFFFF) | (c & ~0xFFFF)
    return ints(("%0*x" % (len(t), v - low + c)).encode()[-len(t):])


LAST_DES = 0x1FF800
LAST_AES = 0xFFFF0000


def bases(p, k):
    """k base keys: some that differ only in the counter (same initial key), some close to the end of their KSNs,
    some that must be refused."""
    out = []
    while len(out) < k:
        c = p.r.randrange(17)
        if c <= 5:
            out.append(base(p))
        elif c == 6:
            out.append(base(p, "des", ctr=LAST_DES - p.r.randrange(0, 4000)))
        elif c == 7:
            out.append(base(p, "aes", ctr=LAST_AES - p.r.choice((0, 1, 2, 1 << 16, 1 << 17, 3 << 16))))
        elif c == 8 and out:                # same device, other counter: the same initial key
            b = dict(p.r.choice(out))
            t = bytes(b["ksn"]).decode("latin-1")
            if not all(x in "0123456789abcdefABCDEF" for x in t):
                pass
            elif len(t) >= 2 and b["alg"] == "des":
                b["ksn"] = ints((t[:-2] + "%02x" % p.r.randrange(256)).encode()) if p.chance(0.5) else counted(t, p.counter(21, 10))
            elif len(t) == 24:
                b["ksn"] = ints((t[:-4] + "%04x" % p.r.randrange(65536)).encode()) if p.chance(0.5) else counted(t, p.counter(32, 16))
            out.append(b)
        elif c == 9 and out:                # same texts in other letters
            b = dict(p.r.choice(out))
            b["bdk"] = ints(bytes(b["bdk"]).swapcase())
            out.append(b)
        elif c == 10 and out:               # same base key, other algorithm or key type
            b = dict(p.r.choice(out))
            b[p.some("alg", "akey")] = p.some("des", "aes", "AES128", "AES256", "")
            out.append(b)
        elif c == 14 and out:               # another base key with the same key serial number
            b = dict(p.r.choice(out))
            n = len(b["bdk"]) // 2
            b["bdk"] = ints(hexcase(p, p.key(n)).encode())
            out.append(b)
        elif c == 15 and out:               # the same base key in another device: one digit of its number differs
            b = dict(p.r.choice(out))
            t = list(b["ksn"])
            lo = len(t) - (6 if b["alg"] == "des" else 8)
            if lo > 0:
                i = p.r.randrange(lo)
                t[i] = p.r.choice(b"0123456789abcdef")
            b["ksn"] = t
            out.append(b)
        elif c == 16 and out:               # base keys that have most of their digits in common
            b = dict(p.r.choice(out))
            t = list(b["bdk"])
            if t:
                t[p.r.choice((0, len(t) - 1, p.r.randrange(len(t))))] = p.r.choice(b"0123456789abcdef")
            b["bdk"] = t
            out.append(b)
        elif c == 11:
            out.append(base(p, "des", n=p.r.randrange(1, 10)))
        elif c == 12:
            b = base(p)
            f = p.some("alg", "bdk", "ksn")
            if f == "alg":
                b["alg"] = p.some("", "DES", "AES", "tdes", "des ", p.near(p.some("des", "aes")), p.r.choice(SAYINGS).decode())
            else:
                t = bytes(b[f]).decode()
                b[f] = ints(p.nearhex(t.encode()) if p.chance(0.5) else p.r.choice(["", t[:-1], t[:-2], t + "00", "zz" + t[2:], t + "0", " " + t, t[:16]]).encode())
            out.append(b)
        elif c == 13:
            b = base(p, "aes")
            b["akey"] = p.some("", "AES128", "AES192", "AES256", "aes128", "HMAC128", "HMAC256", p.near(p.some("AES128", "AES192", "AES256")))
            out.append(b)
    return out


def fmt(p):
    if p.chance(0.02):
        return ints(p.r.choice(SAYINGS))
    if p.chance(0.1):
        return ints(p.near(p.r.choice(DES_FORMATS)).encode())
    return ints(p.r.choice(["", "ISO-0", "ISO-3", "iso-0", "ISO-1", "ISO-2", "ISO-4", "bad"] + DES_FORMATS).encode())


def text(p):
    """a text with no bytes that are not UTF-8: it has to come through JSON, too"""
    t = p.text(p.longlen() if p.chance(0.01) else p.r.randrange(0, 60))
    return ints(t if p.chance(0.5) and valid(t) else p.utf8(len(t)) if p.chance(0.2) else p.ascii(len(t)))


def valid(t):
    try:
        t.decode()
        return True
    except UnicodeDecodeError:
        return False


MODS = ["upper", "title", "swap", "cut", "cut2", "half", "head", "tail", "pad0", "pad00", "space", "lead", "newline", "nul", "twice", "reverse", "0x", "last",
        "left32", "left16", "left48", "right32", "first", "middle", "parity", "halves"]


def crypto(p, o):
    op = p.r.choice(["ep", "dp", "mac", "en", "de"])
    o["op"] = op
    if op in ("ep", "dp"):
        o["pan"] = ints(p.pan() if p.chance(0.85) else p.off(p.pan()) if p.chance(0.6) else p.ascii(p.r.randrange(0, 20)))
        o["fmt"] = fmt(p)
        if p.chance(0.03):
            o["fmt"] = ints(p.off(bytes(o["fmt"])))
    if op == "ep":
        o["pin"] = ints(p.pin(4, 9) if p.chance(0.85) else p.off(p.pin(4, 9)) if p.chance(0.6) else p.ascii(p.r.randrange(0, 14)))
    if op == "mac":
        o["text"] = text(p)
        o["mactype"] = p.r.choice(["cmac", "cmac", "hmac", "hmac", "", "CMAC", "HMAC", "x", p.near(p.some("cmac", "hmac"))])
    if op == "en":
        o["text"] = text(p)
    if op in ("mac", "en", "de"):
        o["action"] = p.action()
    if op in ("en", "de"):
        o["iv"] = ints(p.r.choice([b"", b"", bytes(p.bytes(8).hex(), "ascii"), bytes(p.bytes(16).hex(), "ascii"),
                                   b"xyz", b"0011223", p.nearhex(p.bytes(p.some(8, 16)).hex().encode())]))
    if op in ("dp", "de"):
        n = 16 if o.get("aes") else 8
        t = p.r.choice([p.bytes(8), p.bytes(16), p.bytes(24), b""]).hex().encode()
        o["ctelse"] = ints(t if p.chance(0.8) else p.nearhex(t) if p.chance(0.7) else b"nohex")
        if p.chance(0.3):
            o["ct"] = o["ctelse"]
    return o


def linked(p, ops, o):
    """encrypt and decrypt what came out, with the same account number, format, action and vector"""
    ops.append(o)
    if o["op"] in ("ep", "en"):
        d = {k: v for k, v in o.items() if k in ("base", "pan", "fmt", "action", "iv", "list", "ik", "mod")}
        d["op"] = "dp" if o["op"] == "ep" else "de"
        d["ctelse"] = []
        if p.chance(0.2):
            ops.append({"op": "next", "base": o["base"]})
        ops.append(d)


WEIGHTS = {
    "keys": {"create": 4, "next": 10, "get": 4, "list": 1, "delete": 1, "crypto": 0, "peek": 0, "poke": 0, "createnil": 0},
    "registry": {"create": 8, "next": 3, "get": 6, "list": 3, "delete": 4, "crypto": 0, "peek": 0, "poke": 0, "createnil": 1},
    "crypto": {"create": 4, "next": 4, "get": 1, "list": 0, "delete": 1, "crypto": 16, "peek": 0, "poke": 0, "createnil": 0},
    "isolation": {"create": 5, "next": 6, "get": 5, "list": 3, "delete": 2, "crypto": 2, "peek": 8, "poke": 6, "createnil": 0},
}


def history(p, weights, steps, nbases=None, listed=0.4):
    bs = bases(p, nbases or p.r.randrange(1, 7))
    names = list(weights)
    ws = [weights[n] for n in names]
    ops = [{"op": "create", "base": i, "junk": p.chance(0.2)} for i in range(len(bs)) if p.chance(0.6)]
    while len(ops) < steps:
        kind = p.r.choices(names, ws)[0]
        o = {"op": kind, "base": p.r.randrange(len(bs))}
        if kind in ("get", "next", "delete", "crypto") and p.chance(0.06):
            o["ik"] = ints(p.r.choice(SAYINGS) if p.chance(0.2) else p.r.choice([b"", b"unknown", p.bytes(16).hex().encode(), bytes(bs[o["base"]]["bdk"])]))
        elif kind in ("get", "next", "delete", "crypto") and p.chance(0.08):
            o["mod"] = p.r.choice(MODS)
        if kind == "create":
            if p.chance(0.15):
                ops.append({"op": "delete", "base": o["base"]})
            o["junk"] = p.chance(0.2)
            if p.chance(0.25):               # with a machine that was handed out, or a copy of it
                o["with"], o["h"] = p.some("same", "copy"), p.some(0, p.r.randrange(1000))
                if p.chance(0.5):
                    ops.append({"op": "delete", "base": o["base"]})
                if o["with"] == "same" and p.chance(0.6):
                    ops += [o, {"op": p.some("poke", "next"), "base": o["base"], "h": o["h"]}, {"op": "list", "base": o["base"], "smash": False}]
                    continue
        if kind in ("peek", "poke"):
            o["h"] = p.r.randrange(1000)
        if kind == "list":
            o["smash"] = p.chance(0.5)
        if p.chance(listed):
            o["list"] = True
        if kind == "crypto":
            linked(p, ops, crypto(p, o))
        else:
            ops.append(o)
    return {"bases": bs, "ops": ops}


def histories(p, focus, n, steps):
    return [history(p, WEIGHTS[focus], p.r.randrange(steps // 2, steps + 1)) for _ in range(n)]


def pauses(p, ops):
    """minutes, hours and days between some of them"""
    for o in ops:
        if p.chance(0.15):
            o["rest"] = p.some(1000, 61000, 610000, 3700000, 90000000, 1700000000)


def idle(p, n, steps):
    """histories with long pauses"""
    out = []
    for _ in range(n):
        out.append(history(p, WEIGHTS[p.r.choice(list(WEIGHTS))], steps))
        pauses(p, out[-1]["ops"])
    return out


def idle_stores(p, n, steps):
    """stores with long pauses"""
    out = stores(p, n, steps)
    for h in out:
        pauses(p, h["ops"])
    return out


def returns(p, n, steps):
    """callers that create again with the machines they hold, and then write to these"""
    out = []
    for _ in range(n):
        bs = [base(p) for _ in range(p.r.randrange(1, 4))]
        ops, nheld = [], 0
        for i in range(len(bs)):
            ops.append({"op": "create", "base": i, "junk": p.chance(0.3)})
            nheld += 1
        while len(ops) < steps:
            h = p.r.randrange(nheld)
            i = p.r.randrange(len(bs))
            k = p.some("get", "next", "round", "round", "round")
            if k != "round":
                ops.append({"op": k, "base": i})
                nheld += 1
                continue
            if p.chance(0.8):
                ops += [{"op": "delete", "base": j} for j in range(len(bs))]
            how = p.some("same", "same", "copy")
            ops.append({"op": "create", "base": 0, "with": how, "h": h, "list": p.chance(0.3)})
            if how == "copy":
                h, nheld = nheld, nheld + 1
            ops += [{"op": "next", "base": j} for j in range(len(bs)) if p.chance(0.5)]
            ops += [{"op": "peek", "h": h, "base": 0}] if p.chance(0.5) else []
            ops.append({"op": "list", "base": 0, "smash": False})
            if p.chance(0.4):
                ops += [{"op": "poke", "h": h, "base": 0}, {"op": "list", "base": 0, "smash": False}]
            ops += [{"op": "create", "base": j} for j in range(len(bs)) if p.chance(0.5)]
            nheld = nheld + 1
        out.append({"bases": bs, "ops": ops})
    return out


def devices(p, n, steps):
    """one device of each algorithm that comes with many counters, one life after the other"""
    out = []
    for _ in range(n):
        bs = []
        for alg in p.r.sample(["des", "aes"], p.r.randrange(1, 3)):
            b = base(p, alg)
            bs.append(b)
            for _ in range(p.r.randrange(2, 6)):
                c = p.r.choice([x for x in bs if x["alg"] == alg])
                t = bytes(c["ksn"]).decode()
                bs.append(dict(b, ksn=counted(t, p.counter(21, 10) if alg == "des" else p.counter(32, 16))))
        ops = []
        while len(ops) < steps:
            i = p.r.randrange(len(bs))
            if p.chance(0.9):
                ops += [{"op": "delete", "base": j} for j in range(len(bs)) if bs[j]["alg"] == bs[i]["alg"]]
            ops.append({"op": "create", "base": i, "list": p.chance(0.2)})
            ops += [{"op": "next", "base": i} for _ in range(p.r.randrange(0, 4))]
            if p.chance(0.4):
                linked(p, ops, crypto(p, {"base": i}))
            if p.chance(0.3):
                ops.append({"op": "get", "base": i})
        out.append({"bases": bs, "ops": ops})
    return out


def lookalikes(p, n, steps):
    """one or two machines, and every text that is nearly the key of one"""
    out = []
    for i in range(n):
        kinds = [("des", None), ("aes", 16), ("aes", 24), ("aes", 32)]
        p.r.shuffle(kinds)
        bs = [base(p, *k) for k in kinds[:p.r.randrange(1, 4)]]
        ops = [{"op": "create", "base": b} for b in range(len(bs))]
        some = [(b, m) for b in range(len(bs)) for m in MODS]
        p.r.shuffle(some)
        for b, m in some[:steps]:
            o = {"op": p.some("get", "get", "next", "delete", "crypto"), "base": b, "mod": m, "list": p.chance(0.3)}
            ops.append(crypto(p, o) if o["op"] == "crypto" else o)
            if p.chance(0.1):
                ops.append({"op": p.some("get", "next"), "base": b})
        ops.append({"op": "list"})
        out.append({"bases": bs, "ops": ops})
    return out


def long_life(p, n, steps):
    """one or two machines, advanced many times, up to and past the end of their KSNs"""
    out = []
    for i in range(n):
        bs = [base(p, "des", ctr=p.some(0, LAST_DES - p.r.randrange(0, 30000), p.counter(21, 10))),
              base(p, "aes", ctr=p.some(0, LAST_AES - (p.r.randrange(0, 8) << 16), p.counter(32, 16)))]
        ops = [{"op": "create", "base": 0}, {"op": "create", "base": 1}]
        while len(ops) < steps:
            b = p.some(0, 1)
            ops += [{"op": "next", "base": b}] * p.r.randrange(1, 12)
            ops.append({"op": "get", "base": b, "list": p.chance(0.2)})
        out.append({"bases": bs, "ops": ops})
    return out


def marathon(p, n, steps):
    """one machine, advanced thousands of times"""
    out = []
    for i in range(n):
        alg = ("des", "aes")[i % 2]
        ops = [{"op": "create", "base": 0}]
        while len(ops) < steps:
            ops += [{"op": "next", "base": 0}] * p.r.randrange(1, 400)
            ops.append({"op": p.some("get", "list", "create"), "base": 0})
            if p.chance(0.5):
                ops.append({"op": p.some("mac", "en", "ep"), "base": 0, "pan": ints(p.pan()), "pin": ints(p.pin(4, 9)), "fmt": ints(b"ISO-0"),
                            "text": ints(p.ascii(9)), "action": p.action(), "iv": [], "mactype": "cmac"})
        out.append({"bases": [base(p, alg, ctr=p.some(0, 1, p.counter(21, 3)))], "ops": ops})
    return out


def crowd_sizes(p, n, steps):
    return [p.r.randrange(steps // 3, steps // 2) if i else steps for i in range(n)]


def crowd(p, n, steps):
    """hundreds of machines at a time"""
    out = []
    for k in crowd_sizes(p, n, steps):
        bs = [base(p) for _ in range(k)]
        for b in bs:
            b["bdk"] = ints(hexcase(p, p.raw(len(b["bdk"]) // 2)).encode())
        ops = []

        def some(m):
            for b in p.r.sample(range(k), m):
                yield b
        for i in range(k):
            ops.append({"op": "create", "base": i, "list": i + 1 in (65, 101, 129, 257) or i + 1 == k})
        for i in some(min(k, 60)):
            ops.append({"op": p.some("get", "next", "next", "create"), "base": i})
        for i in some(k // 3):
            ops.append({"op": "delete", "base": i})
        ops.append({"op": "list"})
        for i in some(min(k, 60)):
            ops.append({"op": p.some("get", "next", "create"), "base": i})
        for i in some(k):
            ops.append({"op": p.some("get", "next", "create"), "base": i})
        ops.append({"op": "list"})
        out.append({"bases": bs, "ops": ops})
    return out


def in_use(p, n, steps):
    """many machines used in turn, advanced in between"""
    out = []
    for k in crowd_sizes(p, n, steps):
        bs = [base(p) for _ in range(k)]
        for i in range(k // 4):
            bs.append(dict(p.r.choice(bs[:k]), **({"bdk": ints(hexcase(p, p.raw(len(bs[0]["bdk"]) // 2)).encode())} if p.chance(0.5) else {})))
        ops = [{"op": "create", "base": i} for i in range(len(bs))]
        few = p.r.sample(range(len(bs)), 5)
        for _ in range(2 * k):
            i = p.r.randrange(len(bs)) if p.chance(0.7) else p.r.choice(few)
            if p.chance(0.25):
                ops.append({"op": "next", "base": i})
            linked(p, ops, crypto(p, {"base": i}))
        out.append({"bases": bs, "ops": ops})
    return out


def stored(p):
    """a machine with any content: the service has to work with what its store holds"""
    b = base(p)
    t = dict(alg=b["alg"], akey=b["akey"], bdk=b["bdk"], ksn0=b["ksn"])
    size = {"AES128": 16, "AES192": 24, "AES256": 32}.get(b["akey"], 16)
    aes = b["alg"] == "aes"
    t["ik"] = ints(p.r.choice([p.bytes(size).hex().encode(), p.bytes(size).hex().encode(), p.bytes(size).hex().upper().encode(), p.bytes(size + 1).hex().encode(),
                               b"", b"a", p.ascii(p.r.randrange(1, 12)), b["bdk"] and bytes(b["bdk"])]))
    t["ksn"] = ints(hexcase(p, p.aesksn() if aes else p.desksn(n=p.some(10, 10, 8, 4))).encode())
    t["tk"] = ints(hexcase(p, p.apool(size)).encode())
    if p.chance(0.15):
        f = p.some("tk", "ksn")
        t[f] = ints(p.nearhex(bytes(t[f])))
    if p.chance(0.1):
        t["alg"] = p.some("", "DES", "des", "aes", "x")
    return t


def stores(p, n, steps):
    """the store by itself, and the service on top of one that is also used directly"""
    out = []
    for _ in range(n):
        ms = [stored(p) for _ in range(p.r.randrange(1, 5))]
        while p.chance(0.5):                 # keys that are nearly the same
            m = dict(p.r.choice(ms), tk=stored(p)["tk"])
            if p.chance(0.6):
                k = bytes(m["ik"])
                m["ik"] = ints(p.r.choice([k.upper(), k.lower(), k[:-1], k + b" ", k + k, k[1:], k.title()]))
            ms.append(m)
        bs = bases(p, p.r.randrange(1, 4))
        only = p.chance(0.4)                 # the store by itself
        ops = []
        while len(ops) < p.r.randrange(steps // 2, steps + 1):
            k = p.r.choices(["store", "find", "drop", "all", "storenil", "service"], [6, 5, 2, 2, 0.3, 0 if only else 14])[0]
            m = p.r.choice(ms)
            o = {"op": k}
            if k == "store":
                o["m"] = m
            if k in ("find", "drop"):
                o["ik"] = m["ik"] if p.chance(0.9) else ints(p.off(bytes(m["ik"])))
            if k == "service":
                kind = p.r.choices(["create", "next", "get", "list", "delete", "crypto"], [3, 5, 3, 2, 1, 9])[0]
                o = {"op": kind, "base": p.r.randrange(len(bs))}
                if kind in ("next", "get", "delete", "crypto") and p.chance(0.7):
                    o["ik"] = m["ik"]
                if kind == "crypto":
                    linked(p, ops, crypto(p, o))
                    continue
            if p.chance(0.3):
                o["list"] = True
            ops.append(o)
        out.append({"bases": bs, "ops": ops})
    return out


def failures(p, n, steps):
    """histories in which the store fails now and then"""
    out = []
    for _ in range(n):
        h = history(p, WEIGHTS[p.some("keys", "registry", "crypto", "isolation")], p.r.randrange(steps // 2, steps + 1), listed=0.7)
        for o in h["ops"]:
            if p.chance(0.25):
                o["fail"] = p.some("other", "other", "exists", "notfound", "wrapped")
                o["after"] = p.some(0, 0, 0, 1)
                o["once"] = p.chance(0.5)
        outage(p, h["ops"])
        out.append(h)
    return out


def outage(p, ops):
    """the store fails for a while, and works again"""
    if p.chance(0.5):
        i, kind = p.r.randrange(len(ops)), p.some("other", "other", "wrapped", "notfound")
        for o in ops[i:i + p.some(4, 8, 16, 40)]:
            o["fail"], o["after"], o["once"] = kind, 0, False
        for o in ops[i + 40:i + 60]:
            o.pop("fail", None)


def idle_failures(p, n, steps):
    """stores that fail, with long pauses"""
    out = failures(p, n, steps)
    for h in out:
        pauses(p, h["ops"])
    return out
