"""Scripts of command line invocations (drv mode "cli")."""
from pools import ints, DES_FORMATS
from svcgen import hexcase

OPS = ["ik", "tk", "ep", "dp", "gm", "en", "de"]
VALUES = {"ik": ["bdk", "ksn"], "tk": ["ik", "ksn"], "ep": ["tk", "ksn", "pin", "pan", "format"], "dp": ["tk", "ksn", "pin", "pan", "format"],
          "gm": ["tk", "ksn", "data"], "en": ["tk", "ksn", "iv", "data"], "de": ["tk", "ksn", "iv", "data"]}
TYPES = {16: ["aes128", "AES128", "Aes128", "aEs128"], 24: ["aes192", "AES192", "Aes192", "aEs192"], 32: ["aes256", "AES256", "Aes256", "aEs256"]}


def arg(p):
    """an argument text: no NUL"""
    if p.chance(0.04):
        return p.r.choice([b"-", b"@x", b"@/etc/hostname", b"file:x", b"$HOME", b"~", b"%s", b"\\n", b"\\x41", b"0x41", b"'a'", b"\"a\"", b"a,b", b"a b", b"`x`", b"*", b"null", b"request", b"aes"])
    return bytes(b for b in p.text(p.r.randrange(1, 40)) if b) or b"x"


def value(p, op, f, aes, size):
    if f in ("bdk", "ik", "tk"):
        k = p.apool(size if aes else 16)
        if p.chance(0.04):
            k = p.bytes(p.r.randrange(0, 36))
        v = hexcase(p, k).encode()
    elif f == "ksn":
        v = hexcase(p, p.aesksn() if aes or op not in ("ik", "tk") and p.chance(0.4) else p.desksn(n=p.some(10, 10, 10, p.r.randrange(1, 11)))).encode()
        if p.chance(0.04):
            v = p.bytes(p.r.randrange(0, 16)).hex().encode()
    elif f == "pin" and op == "ep":
        v = p.pin(4, 9) if p.chance(0.9) else bytes(b for b in p.text(p.r.randrange(0, 14)) if b)
    elif f == "pin":
        v = p.bytes(16 if aes else 8).hex().encode()
    elif f == "pan":
        v = p.pan() if p.chance(0.93) else bytes(b for b in p.text(p.r.randrange(0, 20)) if b)
    elif f == "format":
        v = p.r.choice(DES_FORMATS + ["iso-0", "ISO-4", "bad"]).encode()
    elif f == "iv":
        v = p.r.choice([p.bytes(16 if aes else 8), p.bytes(8), bytes(8), p.bytes(5)]).hex().encode() if p.chance(0.9) else arg(p)
    elif f == "data" and op == "de":
        v = p.bytes(p.r.choice((8, 16, 24, 32, 5))).hex().encode() if p.chance(0.9) else arg(p)
    else:
        v = arg(p)
    if p.chance(0.02):
        v = p.r.choice([b"zz", b"", v[:-1], b" " + v, b"-1", b"--", b"="])
    return v


def invocation(p, sel=None, miss=0.12):
    aes = p.chance(0.5)
    size = p.r.choice((16, 24, 32))
    q = {"version": False, "known": True, "alg": "-", "keytype": "-", "macname": "-", "action": "-", "sel": []}
    flags = []
    sel = [p.r.choice(OPS)] if sel is None else sel
    if p.chance(0.12):
        sel = sel + p.r.sample(OPS, p.r.randrange(1, 4))

    def name(n, key, v):
        q[key] = v
        flags.append({"kind": "name", "n": n, "v": v, "style": p.r.randrange(4)})

    if aes:
        name("algorithm", "alg", "aes")
    elif p.chance(0.5):
        name("algorithm", "alg", "des")
    if p.chance(0.04):
        flags = []
        name("algorithm", "alg", p.some("", "AES", "DES", "tdes", "3des", "rsa"))
        aes = False
    if aes and (size != 16 or p.chance(0.5)) or p.chance(0.1):
        name("algorithm.key_type", "keytype", p.r.choice(TYPES[size]) if p.chance(0.93)
             else p.some("", "aes", "hmac128", "HMAC256", "aes512", "128", "hmac192", "xAES128"))
    for op in sorted(set(sel), key=OPS.index):
        b = p.r.choice(["", "", "true", "1", "T", "t", "TRUE", "True"])
        flags.append({"kind": "bool", "n": op, "v": b})
        q["sel"].append(op)
    for op in OPS:                                     # operations switched off are not selected
        if op not in sel and p.chance(0.03):
            flags.append({"kind": "bool", "n": op, "v": p.r.choice(["false", "0", "F", "False"])})
    ops = list(q["sel"])
    if p.chance(0.1):
        ops.append(p.r.choice(OPS))
    drop = p.chance(miss)
    for op in dict.fromkeys(ops):
        for f in VALUES[op]:
            if drop and p.chance(0.4) or (f == "format" and aes and p.chance(0.7)) or (f == "ksn" and not aes and op not in ("ik", "tk") and p.chance(0.7)):
                if p.chance(0.8):
                    continue
                v = b""
            else:
                v = value(p, op, f, aes, size)
            style = p.r.randrange(4)
            if v[:1] in (b"-", b""):
                style &= 1
            flags.append({"kind": "text", "n": f"{op}.{f}", "v": ints(v), "style": style})
    act = q["sel"][0] if q["sel"] else p.some("gm", "en", "de")
    if act in ("gm", "en", "de") and p.chance(0.7):
        good = ["request", "response", "response"]
        name(f"{act}.action", "action", p.r.choice(good if p.chance(0.85) else ["Response", "", "verify", "response "]))
    if act == "gm" and p.chance(0.6):
        name("gm.type", "macname", p.r.choice(["cmac", "hmac", "hmac"]) if p.chance(0.9) else p.some("", "CMAC", "HMAC", "x"))
    if p.chance(0.01):
        q["version"] = True
        flags.append({"kind": "bool", "n": "v", "v": p.some("", "true")})
    p.r.shuffle(flags)
    if p.chance(0.01):
        q["known"] = False
        flags.insert(p.r.randrange(len(flags) + 1), {"kind": "raw", "n": "", "v": p.some("-nope", "-ik.kid=00", "--ep.what=1", "-ik=maybe", "-en.key=1")})
    if p.chance(0.04):                                 # what stands behind the flags
        flags.append({"kind": "raw", "n": "", "v": p.some("more", "-", "--", "en", "x=1", "0")})
        if p.chance(0.3):
            flags[-1]["v"] = "--"
            flags.append({"kind": "raw", "n": "", "v": p.some("-ik", "-ep", "-tk=false", "-algorithm=aes")})
    q["flags"] = flags
    return q


def chain(p):
    """encrypt, and decrypt what came out with the same arguments"""
    op = p.some("ep", "en")
    a = invocation(p, [op], miss=0)
    a["flags"] = [f for f in a["flags"] if f["n" if "n" in f else "kind"] != "v" or f["kind"] != "bool"]
    a["version"] = False
    if a["sel"] != [op] or not a["known"]:
        return [a]
    d = "dp" if op == "ep" else "de"
    b = {k: v for k, v in a.items() if k != "flags"}
    b["sel"] = [d]
    fs = []
    for f in a["flags"]:
        f = dict(f)
        if f["kind"] == "bool" and f["n"] in OPS:
            if f["n"] != op:
                continue
            f["n"] = d
        elif "." in f["n"] and f["n"].startswith(op + "."):
            f["n"] = d + f["n"][2:]
            if f["n"] in ("dp.pin", "de.data"):
                f["prev"] = True
                f["style"] = f.get("style", 0) & 1
        elif f["kind"] == "text":
            continue
        fs.append(f)
    b["flags"] = fs
    return [a, b]


def exact(p, op, aes, without=(), empty=()):
    """an invocation with everything it needs, but for some values: left out, or given as an empty text"""
    size = p.r.choice((16, 24, 32))
    q = {"version": False, "known": True, "alg": "-", "keytype": "-", "macname": "-", "action": "-", "sel": [op]}
    flags = [{"kind": "bool", "n": op, "v": ""}]
    if aes or p.chance(0.5):
        q["alg"] = "aes" if aes else "des"
        flags.append({"kind": "name", "n": "algorithm", "v": q["alg"], "style": p.r.randrange(4)})
    if aes and (size != 16 or p.chance(0.5)):
        q["keytype"] = p.r.choice(TYPES[size])
        flags.append({"kind": "name", "n": "algorithm.key_type", "v": q["keytype"], "style": p.r.randrange(4)})
    for f in VALUES[op]:
        if f in without or f == "format" and aes:
            continue
        v = b"" if f in empty else good(p, op, f, aes, size)
        flags.append({"kind": "text", "n": f"{op}.{f}", "v": ints(v), "style": p.r.randrange(4) & (1 if v[:1] in (b"-", b"") else 3)})
    for n, key, vals in (("action", "action", ["request", "response"]), ("type", "macname", ["cmac", "hmac"])):
        if op == "gm" or n == "action" and op in ("en", "de"):
            k = p.r.randrange(3)
            if k < 2:
                q[key] = vals[k]
                flags.append({"kind": "name", "n": f"{op}.{n}", "v": q[key], "style": p.r.randrange(4)})
    p.r.shuffle(flags)
    q["flags"] = flags
    return q


def good(p, op, f, aes, size):
    """a value that is accepted"""
    bl = 16 if aes else 8
    if f in ("bdk", "ik", "tk"):
        return hexcase(p, p.apool(size if aes else 16)).encode()
    if f == "ksn":
        return hexcase(p, p.aesksn() if aes else p.desksn()).encode()
    if f == "pin":
        return p.pin(4, 9) if op == "ep" else p.bytes(bl).hex().encode()
    if f == "pan":
        return p.pan()
    if f == "format":
        return p.r.choice(DES_FORMATS).encode()
    if f == "iv":
        return p.bytes(bl).hex().encode()
    if op == "de":
        return p.bytes(bl * p.r.randrange(1, 4)).hex().encode()
    t = p.ascii(p.r.choice((1, 7, 8, 9, 15, 16, 17, 24, 32, p.r.randrange(1, 70)))) if p.chance(0.8) else p.utf8(p.r.randrange(1, 40))
    return t


def near(p):
    """everything right but for one value with a blemish"""
    op, aes = p.r.choice(OPS), p.chance(0.5)
    q = exact(p, op, aes)
    fs = [f for f in q["flags"] if f["kind"] == "text"]
    f = p.r.choice(fs)
    v = bytes(f["v"])
    hexed = f["n"].split(".")[1] in ("bdk", "ik", "tk", "ksn", "iv") or f["n"] in ("dp.pin", "de.data")
    v = (p.nearhex if hexed else p.off)(v).replace(b"\x00", b"\n")
    f["v"] = ints(v)
    if v[:1] in (b"-", b""):
        f["style"] = f["style"] & 1
    return q


def names(p):
    """everything right but for one name that is nearly one there is"""
    out = []

    def one(op, aes, flag, key, x):
        q = exact(p, op, aes)
        x = x.replace("\x00", "\x01")
        q["flags"] = [f for f in q["flags"] if f["n"] != flag]
        o = {"kind": "name", "n": flag, "v": x, "style": p.r.randrange(4) & (1 if x[:1] in ("-", "") else 3)}
        if key:
            q[key] = x
        else:
            o["kind"], o["v"] = "text", ints(x.encode())
        q["flags"].insert(p.r.randrange(len(q["flags"]) + 1), o)
        out.append(q)

    for t in ("des", "aes"):
        for x in p.near_names(t):
            one(p.r.choice(OPS), t == "aes", "algorithm", "alg", x)
    for t in ("aes128", "aes192", "aes256", "hmac128"):
        for x in p.near_names(t):
            one(p.r.choice(OPS), True, "algorithm.key_type", "keytype", x)
    for t in ("cmac", "hmac"):
        for x in p.near_names(t):
            one("gm", p.chance(0.5), "gm.type", "macname", x)
    for t in ("request", "response"):
        for x in p.near_names(t):
            op = p.some("gm", "en", "de")
            one(op, p.chance(0.5), op + ".action", "action", x)
    for t in p.r.sample(DES_FORMATS, 5):
        for x in p.near_names(t):
            op = p.some("ep", "dp")
            one(op, False, op + ".format", None, x)
    return out


def systematic(p, times):
    """every value an operation takes missing alone, empty alone, and none missing"""
    out = []
    for _ in range(times):
        for op in OPS:
            for aes in (False, True):
                out.append(exact(p, op, aes))
                for f in VALUES[op]:
                    out.append(exact(p, op, aes, without=(f,)))
                    if p.chance(0.4):
                        out.append(exact(p, op, aes, empty=(f,)))
                if p.chance(0.3):
                    out.append(exact(p, op, aes, without=p.r.sample(VALUES[op], 2)))
    return out


def invocations(p, n):
    runs = [[invocation(p, [])], [{"version": False, "known": True, "alg": "-", "keytype": "-", "macname": "-", "action": "-", "sel": [], "flags": []}]]
    for op in OPS:
        for _ in range(4):
            runs.append([invocation(p, [op], miss=1)])
    runs += [[q] for q in systematic(p, n // 500)]
    nearly = names(p)
    runs += [[q] for q in p.r.sample(nearly, min(n // 8, len(nearly)))]
    runs += [[near(p)] for _ in range(n // 10)]
    while sum(map(len, runs)) < n:
        runs.append(chain(p) if p.chance(0.22) else [invocation(p)])
    return [{"chains": runs[i:i + 40]} for i in range(0, len(runs), 40)]
