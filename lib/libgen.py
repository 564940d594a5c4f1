"""Scripts of library calls (drv mode "lib"), one generator per property."""
from pools import Pools, WEAK, DES_FORMATS, AES_TYPES, HMAC_TYPES, ints, PUBLISHED_BDK, PUBLISHED_KSN


def case_mix(p, s):
    k = p.r.randrange(5)
    if k < 3:
        return s
    if k == 3:
        return s.lower()
    return "".join(c.lower() if p.chance(0.5) else c for c in s)


def L(op, **kw):
    o = {"op": op}
    for k, v in kw.items():
        if v is None:
            continue
        o[k] = ints(v) if isinstance(v, (bytes, bytearray)) else v
    return o


def text_arg(s):
    return s.encode() if isinstance(s, str) else s


# ---------------------------------------------------------------- C01, C02: keys

def tdes_keys(p, n):
    out = []
    for c in [0] + [1 << i for i in range(21)]:
        out.append(L("des.tk", ik=p.apool(16), ksn=p.desksn(c)))
        out.append(L("des.ik", bdk=p.apool(16), ksn=p.desksn(c)))
    for k in WEAK:                           # keys made of those with which DES has few round keys
        for half in (p.r.choice(WEAK), k, p.raw(8)):
            for key in (k + half, half + k):
                out.append(L("des.ik", bdk=key, ksn=p.desksn()))
                out.append(L("des.tk", ik=key, ksn=p.desksn()))
    for i in range(80):                      # every bit of the KSN register
        v = (1 << i).to_bytes(10, "big")
        out.append(L("des.ik", bdk=p.apool(16), ksn=v))
        out.append(L("des.tk", ik=p.apool(16), ksn=v))
        w = bytes(255 - b for b in v)
        out.append(L("des.ik", bdk=p.apool(16), ksn=w))
        out.append(L("des.tk", ik=p.apool(16), ksn=w))
    for m in range(1, 10):
        for _ in range(4):
            out.append(L("des.ik", bdk=p.apool(16), ksn=p.desksn(n=m)))
            out.append(L("des.tk", ik=p.apool(16), ksn=p.desksn(n=m)))
    while len(out) < n:
        if p.chance(0.25):
            out.append(L("des.ik", bdk=p.apool(16), ksn=p.desksn()))
        else:
            out.append(L("des.tk", ik=p.apool(16), ksn=p.desksn()))
    return out


def aes_keys(p, n):
    out = []
    for size in (16, 24, 32):
        for c in [0] + [1 << i for i in range(32)]:
            out.append(L("aes.tk", ik=p.apool(size), ksn=p.aesksn(c)))
        for i in range(96):
            v = (1 << i).to_bytes(12, "big")
            out.append(L("aes.ik", bdk=p.apool(size), ksn=v))
            out.append(L("aes.tk", ik=p.apool(size), ksn=v))
        for m in range(8, 33):               # the initial key needs the first 8 bytes only
            out.append(L("aes.ik", bdk=p.apool(size), ksn=p.bytes(m)))
    while len(out) < n:
        size = p.r.choice((16, 24, 32))
        if p.chance(0.2):
            out.append(L("aes.ik", bdk=p.apool(size), ksn=p.aesksn()))
        else:
            out.append(L("aes.tk", ik=p.apool(size), ksn=p.aesksn()))
    return out


# ---------------------------------------------------------------- C03, C04: succession of KSNs

def des_ksns(p, n):
    out = []
    for c in [0] + [1 << i for i in range(21)] + [(1 << i) - 1 for i in range(22)]:
        out.append(L("ksn.des", ksn=p.desksn(c)))
    top = 0x1FF800
    for d in range(-40, 41):
        out.append(L("ksn.des", ksn=p.desksn(top + d)))
    for m in range(4, 10):
        for _ in range(12):
            out.append(L("ksn.des", ksn=p.desksn(n=m)))
    for lo in range(21):                     # runs of ten ones, at every place
        for extra in range(3):
            c = (((1 << 10) - 1) << lo) & 0x1FFFFF
            out.append(L("ksn.des", ksn=p.desksn(min(0x1FFFFF, c + extra))))
    while len(out) < n:
        out.append(L(p.some("ksn.des", "ksn.des", "ksn.des", "ksn.tcdes"), ksn=p.desksn()))
    return out


def aes_ksns(p, n):
    out = []
    for c in [0] + [1 << i for i in range(32)] + [(1 << i) - 1 for i in range(33)]:
        out.append(L("ksn.aes", ksn=p.aesksn(c)))
        out.append(L("ksn.valid", ksn=p.aesksn(c)))
    top = 0xFFFF0000
    for d in range(-40, 41):
        out.append(L("ksn.aes", ksn=p.aesksn(top + d)))
        out.append(L("ksn.valid", ksn=p.aesksn(top + d)))
    for lo in range(32):
        for extra in range(3):
            c = (((1 << 16) - 1) << lo) & 0xFFFFFFFF
            out.append(L("ksn.aes", ksn=p.aesksn(min(0xFFFFFFFF, c + extra))))
    for _ in range(n // 12):
        out.append(L("ksn.valid", ksn=p.bytes(p.r.randrange(0, 20))))
    while len(out) < n:
        op = p.some("ksn.aes", "ksn.aes", "ksn.aes", "ksn.valid", "ksn.tcaes")
        out.append(L(op, ksn=p.aesksn()))
    return out


# ---------------------------------------------------------------- C05, C06: PINs

def des_pins(p, n):
    out = longer(p, ["des.ep", "des.dp"])
    for f in DES_FORMATS + ["ISO-4", "ISO-5", "", "ISO0", "VISA5", "ECI5"]:
        for m in range(0, 20):
            out.append(L("des.ep", key=p.apool(16), pin=p.pin(m, m), pan=p.pan(), fmt=case_mix(p, f).encode()))
        for m in range(0, 24):
            out.append(L("des.ep", key=p.apool(16), pin=p.pin(), pan=p.pan(m, m), fmt=f.encode()))
        for i in range(16):                 # every digit value at every place, first digits above all
            d = b"0123456789"[i % 10:i % 10 + 1]
            pin = bytearray(p.pin(4, 12))
            pin[i % len(pin)] = d[0]
            out.append(L("des.ep", key=p.apool(16), pin=bytes(pin), pan=p.pan(), fmt=f.encode()))
    for f in DES_FORMATS:
        for x in p.near_names(f):
            out.append(L("des.ep", key=p.apool(16), pin=p.pin(4, 12), pan=p.pan(), fmt=x.encode()))
            out.append(L("des.dp", key=p.apool(16), ct=p.bytes(8), pan=p.pan(), fmt=x.encode()))
    while len(out) < n:
        f = p.r.choice(DES_FORMATS)
        k = p.r.randrange(10)
        pin, pan = p.pin(), p.pan()
        fm = case_mix(p, f).encode()
        if k == 0:
            pin = p.text(p.r.randrange(0, 16)) if p.chance(0.5) else p.off(pin)          # not digits
        elif k == 1:
            pan = p.text(p.r.randrange(0, 24)) if p.chance(0.5) else p.off(pan)
        elif k == 4 and p.chance(0.3):
            fm = p.off(fm)
        if k == 2:
            out.append(L("des.dp", key=p.apool(16), ct=p.bytes(8), pan=pan, fmt=fm))
        elif k == 3:
            pin = bytes(p.r.choice(b"0123456789abcdefABCDEF") for _ in range(p.r.randrange(4, 13)))
            out.append(L("des.ep", key=p.apool(16), pin=pin, pan=pan, fmt=f.encode()))
        else:
            out.append(L("des.ep", key=p.apool(16), pin=pin, pan=pan, fmt=fm))
    return out


def pan_block(pan):
    return bytes.fromhex("0000" + pan[-13:-1].decode())


def near_types(p, *ops, share=1.0):
    """key types that are nearly one of those there are"""
    out = []
    for size in (16, 24, 32):
        for t in list(AES_TYPES.values()) + list(HMAC_TYPES.values()):
            for x in p.near_names(t):
                for op in ops:
                    if p.chance(share):
                        o = any_valid(p, op)
                        o["key"], o["type"] = ints(p.apool(size)), x
                        out.append(o)
    return out


def near_actions(p, op):
    out = []
    for a in ("request", "response"):
        for x in p.near_names(a):
            o = any_valid(p, op)
            o["action"] = x
            out.append(o)
    return out


def every_des_pin(p, n):
    """every PIN of four digits"""
    return [L("des.ep", key=p.apool(16), pin=b"%04d" % i, pan=p.pan(), fmt=case_mix(p, p.r.choice(DES_FORMATS)).encode()) for i in range(n)]


def every_aes_pin(p, n):
    out = []
    for i in range(n):
        size = p.r.choice((16, 24, 32))
        out.append(L("aes.ep", key=p.apool(size), ksn=p.aesksn(), pin=b"%04d" % i, pan=p.pan(12, 19), type=AES_TYPES[size]))
    return out


def des_pin_blocks(p, n):
    """Decryption of chosen clear blocks: every control digit, every length digit, odd digits and fillers."""
    out = []
    first = {"ISO-0": 0, "ANSI": 0, "ECI1": 0, "VISA1": 0, "VISA4": 0, "ISO-3": 3, "ISO-1": 1, "ECI4": 1, "ISO-2": 2}

    def dp(f, digits, pan):
        blk = bytes.fromhex("".join("%x" % d for d in digits))
        if first.get(f) in (0, 3):
            blk = bytes(a ^ b for a, b in zip(blk, pan_block(pan)))
        out.append(L("des.dp", key=p.apool(16), clear=blk, pan=pan, fmt=case_mix(p, f).encode()))

    for f in DES_FORMATS:
        for d1 in range(16):
            for d2 in range(16):
                rest = [p.r.randrange(16) if p.chance(0.15) else p.r.randrange(10) for _ in range(14)]
                if p.chance(0.6) and 1 <= d2 <= 14:
                    rest = rest[:d2] + [15] * (14 - d2)
                dp(f, [d1, d2] + rest, p.pan())
    while len(out) < n:
        f = p.r.choice(DES_FORMATS)
        m = p.r.randrange(4, 13)
        pin = [p.r.randrange(10) for _ in range(m)]
        if f in first:
            d = [first[f], m] + pin
        elif f == "VISA3" or f == "ECI2":
            d = pin
        else:
            d = [p.r.randrange(3, 8)] + pin
        d = (d + [15] * 16)[:16]
        for _ in range(p.r.randrange(0, 3)):
            d[p.r.randrange(16)] = p.r.randrange(16)
        dp(f, d, p.pan())
    return out


def aes_pins(p, n):
    out = longer(p, ["aes.ep", "aes.dp"])
    for size in (16, 24, 32):
        t = AES_TYPES[size]
        for m in range(0, 16):
            out.append(L("aes.ep", key=p.apool(size), ksn=p.aesksn(), pin=p.pin(m, m), pan=p.pan(), type=t))
        for m in range(0, 24):
            out.append(L("aes.ep", key=p.apool(size), ksn=p.aesksn(), pin=p.pin(), pan=p.pan(m, m), type=t))
        for t2 in list(AES_TYPES.values()) + list(HMAC_TYPES.values()) + ["", "AES", "aes128", "DES"]:
            out.append(L("aes.ep", key=p.apool(size), ksn=p.aesksn(), pin=p.pin(), pan=p.pan(), type=t2))
            out.append(L("aes.dp", key=p.apool(size), ksn=p.aesksn(), ct=p.bytes(16), pan=p.pan(), type=t2))
        for i in range(12):
            d = b"0123456789"[i % 10:i % 10 + 1]
            pin = bytearray(p.pin(12, 12))
            pin[i] = d[0]
            out.append(L("aes.ep", key=p.apool(size), ksn=p.aesksn(), pin=bytes(pin), pan=p.pan(), type=t))
    out += near_types(p, "aes.ep", "aes.dp", share=0.5)
    while len(out) < n:
        size = p.r.choice((16, 24, 32))
        t = AES_TYPES[size]
        k = p.r.randrange(10)
        pin, pan = p.pin(), p.pan(12, 19)
        if k == 0:
            pin = p.text(p.r.randrange(0, 16)) if p.chance(0.5) else p.off(pin)
        elif k == 1:
            pan = p.text(p.r.randrange(0, 24)) if p.chance(0.5) else p.off(pan)
        elif k == 2:
            pin = bytes(p.r.choice(b"0123456789abcdefABCDEF") for _ in range(p.r.randrange(4, 13)))
        if k == 3:
            out.append(L("aes.dp", key=p.apool(size), ksn=p.aesksn(), ct=p.bytes(16), pan=pan, type=t))
        else:
            out.append(L("aes.ep", key=p.apool(size), ksn=p.aesksn(), pin=pin, pan=pan, type=t))
    return out


def aes_pin_blocks(p, n):
    """Decryption of chosen clear PIN fields."""
    out = []
    for size in (16, 24, 32):
        for d2 in range(16):
            for _ in range(3):
                d = [4, d2] + [p.r.randrange(10) for _ in range(d2)]
                d = (d + [10] * 16)[:16] + [p.r.randrange(16) for _ in range(16)]
                if p.chance(0.3):
                    d[p.r.randrange(2, 16)] = p.r.randrange(16)
                out.append(L("aes.dp", key=p.apool(size), ksn=p.aesksn(), clear=bytes.fromhex("".join("%x" % x for x in d)),
                             pan=p.pan(12, 19), type=AES_TYPES[size]))
    return out


def longs(p, n, make):
    """n calls with long texts, one of them very long"""
    return [make(p.text(65536 + p.some(-9, 0, 1, 8) if i == 0 else p.longlen())) for i in range(n)]


def huge(*ops):
    """texts of more than 65,536 blocks"""
    def gen(p, n):
        out = []
        for op in ops:
            bl = 8 if op.startswith("des") else 16
            t = p.raw(65536 * bl + p.r.randrange(1, 4 * bl))
            size = p.r.choice((16, 24, 32))
            o = L(op, key=p.apool(16 if bl == 8 else size), action=p.action())
            o["ct" if op.endswith(".de") else "text"] = ints(t)
            if op[-3:] in (".en", ".de"):
                o["iv"] = ints(p.iv(bl))
            if bl == 16:
                o.update(ksn=ints(p.aesksn()), type=(HMAC_TYPES if op == "aes.hmac" else AES_TYPES)[size])
            out.append(o)
        return out
    gen.__name__ = "huge texts for " + ", ".join(ops)
    return gen


# ---------------------------------------------------------------- C07, C08: MACs

def des_macs(p, n):
    out = []
    for m in range(0, 70):
        for a in ("request", "response"):
            out.append(L("des.mac", key=p.apool(16), text=p.text(m), action=a))
    out += near_actions(p, "des.mac")
    out += longs(p, n // 100, lambda t: L("des.mac", key=p.apool(16), text=t, action=p.action()))
    while len(out) < n:
        out.append(L("des.mac", key=p.apool(16), text=p.text(), action=p.action()))
    return out


def aes_macs(p, n):
    out = []
    for size in (16, 24, 32):
        for m in range(0, 70):
            out.append(L("aes.cmac", key=p.apool(size), ksn=p.aesksn(), text=p.text(m), type=AES_TYPES[size],
                         action=p.some("request", "response")))
            out.append(L("aes.hmac", key=p.apool(size), ksn=p.aesksn(), text=p.text(m), type=HMAC_TYPES[size],
                         action=p.some("request", "response")))
        for t in list(AES_TYPES.values()) + list(HMAC_TYPES.values()) + ["", "HMAC", "hmac128", "DES"]:
            for op in ("aes.cmac", "aes.hmac"):
                for a in ("request", "response"):
                    out.append(L(op, key=p.apool(size), ksn=p.aesksn(), text=p.text(big=False), type=t, action=a))
        for op, t in (("aes.cmac", AES_TYPES[size]), ("aes.hmac", HMAC_TYPES[size])):
            out += longs(p, n // 400, lambda x: L(op, key=p.apool(size), ksn=p.aesksn(), text=x, type=t, action=p.action()))
    out += near_actions(p, "aes.cmac") + near_actions(p, "aes.hmac") + near_types(p, "aes.cmac", "aes.hmac", share=0.5)
    while len(out) < n:
        size = p.r.choice((16, 24, 32))
        h = p.chance(0.5)
        out.append(L("aes.hmac" if h else "aes.cmac", key=p.apool(size), ksn=p.aesksn(), text=p.text(),
                     type=(HMAC_TYPES if h else AES_TYPES)[size], action=p.action()))
    return out


# ---------------------------------------------------------------- C09, C10: data

def des_data(p, n):
    out = []
    for m in range(0, 50):
        for a in ("request", "response"):
            out.append(L("des.en", key=p.apool(16), iv=p.iv(8), text=p.text(m), action=a))
            out.append(L("des.de", key=p.apool(16), iv=p.iv(8), ct=p.text(m), action=a))
    for m in range(0, 20):
        out.append(L("des.en", key=p.apool(16), iv=p.bytes(m), text=p.text(), action=p.action()))
        out.append(L("des.de", key=p.apool(16), iv=p.bytes(m), ct=p.text(), action=p.action()))
    out += near_actions(p, "des.en") + near_actions(p, "des.de")
    out += longs(p, n // 200, lambda t: L("des.en", key=p.apool(16), iv=p.iv(8), text=t, action=p.action()))
    out += longs(p, n // 200, lambda t: L("des.de", key=p.apool(16), iv=p.iv(8), ct=t, action=p.action()))
    while len(out) < n:
        if p.chance(0.65):
            out.append(L("des.en", key=p.apool(16), iv=p.iv(8), text=p.text(), action=p.action(), nil=p.chance(0.5)))
        else:
            out.append(L("des.de", key=p.apool(16), iv=p.iv(8), ct=p.text(), action=p.action(), nil=p.chance(0.5)))
    return out


def aes_data(p, n):
    out = []
    for size in (16, 24, 32):
        t = AES_TYPES[size]
        for m in range(0, 50):
            out.append(L("aes.en", key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), text=p.text(m), type=t,
                         action=p.some("request", "response")))
            out.append(L("aes.de", key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), ct=p.text(m), type=t,
                         action=p.some("request", "response")))
        for m in range(0, 36):
            out.append(L("aes.en", key=p.apool(size), ksn=p.aesksn(), iv=p.bytes(m), text=p.text(), type=t, action=p.action()))
            out.append(L("aes.de", key=p.apool(size), ksn=p.aesksn(), iv=p.bytes(m), ct=p.text(), type=t, action=p.action()))
        for t2 in list(AES_TYPES.values()) + list(HMAC_TYPES.values()) + ["", "AES", "aes128", "DES"]:
            for op in ("aes.en", "aes.de"):
                o = L(op, key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), type=t2, action=p.action())
                o["text" if op == "aes.en" else "ct"] = ints(p.text(big=False))
                out.append(o)
        out += longs(p, n // 500, lambda x: L("aes.en", key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), text=x, type=t, action=p.action()))
        out += longs(p, n // 500, lambda x: L("aes.de", key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), ct=x, type=t, action=p.action()))
    out += near_actions(p, "aes.en") + near_actions(p, "aes.de") + near_types(p, "aes.en", "aes.de", share=0.5)
    while len(out) < n:
        size = p.r.choice((16, 24, 32))
        t = AES_TYPES[size]
        if p.chance(0.65):
            out.append(L("aes.en", key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), text=p.text(), type=t,
                         action=p.action(), nil=p.chance(0.5)))
        else:
            out.append(L("aes.de", key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), ct=p.text(), type=t,
                         action=p.action(), nil=p.chance(0.5)))
    return out


# ---------------------------------------------------------------- C11, C12, C23: any call

def any_valid(p, op=None):
    op = op or p.r.choice(ALL_OPS)
    size = p.r.choice((16, 24, 32))
    t = AES_TYPES[size]
    text = p.text(p.r.randrange(0, 80))
    if op == "des.ik":
        return L(op, bdk=p.apool(16), ksn=p.desksn(n=p.some(10, 10, 10, p.r.randrange(1, 11))))
    if op == "des.tk":
        return L(op, ik=p.apool(16), ksn=p.desksn(n=p.some(10, 10, 10, p.r.randrange(1, 11))))
    if op == "des.ep":
        return L(op, key=p.apool(16), pin=p.pin(4, 9), pan=p.pan(), fmt=p.r.choice(DES_FORMATS).encode())
    if op == "des.dp":
        return L(op, key=p.apool(16), ct=p.bytes(8), pan=p.pan(), fmt=p.r.choice(DES_FORMATS).encode())
    if op == "des.mac":
        return L(op, key=p.apool(16), text=text, action=p.action())
    if op == "des.en":
        return L(op, key=p.apool(16), iv=p.iv(8), text=text, action=p.action())
    if op == "des.de":
        return L(op, key=p.apool(16), iv=p.iv(8), ct=text, action=p.action())
    if op == "aes.ik":
        return L(op, bdk=p.apool(size), ksn=p.aesksn())
    if op == "aes.tk":
        return L(op, ik=p.apool(size), ksn=p.aesksn())
    if op == "aes.ep":
        return L(op, key=p.apool(size), ksn=p.aesksn(), pin=p.pin(), pan=p.pan(), type=t)
    if op == "aes.dp":
        return L(op, key=p.apool(size), ksn=p.aesksn(), ct=p.bytes(16), pan=p.pan(), type=t)
    if op == "aes.cmac":
        return L(op, key=p.apool(size), ksn=p.aesksn(), text=text, type=t, action=p.action())
    if op == "aes.hmac":
        return L(op, key=p.apool(size), ksn=p.aesksn(), text=text, type=HMAC_TYPES[size], action=p.action())
    if op == "aes.en":
        return L(op, key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), text=text, type=t, action=p.action())
    if op == "aes.de":
        return L(op, key=p.apool(size), ksn=p.aesksn(), iv=p.iv(16), ct=text, type=t, action=p.action())
    if op in ("ksn.des", "ksn.tcdes"):
        return L(op, ksn=p.desksn())
    if op in ("ksn.aes", "ksn.valid", "ksn.tcaes"):
        return L(op, ksn=p.aesksn())
    if op == "hex.dec":
        return L(op, text=p.bytes(p.r.randrange(0, 40)).hex().encode())
    if op == "hex.enc":
        return L(op, data=p.bytes(p.r.randrange(0, 40)))
    if op in SEQ_OPS:
        return sequence(p, op, size)
    if op.startswith("ecb.aes"):
        return L(op, key=p.apool(size), block=p.bytes(16))
    if op.startswith("ecb.des"):
        return L(op, key=p.apool(8), block=p.bytes(8))
    return L(op, key=p.apool(p.some(16, 24)), block=p.bytes(8))


def sequence(p, op, size):
    """several calls on one cipher object; some of them with blocks that have to be refused"""
    bl = 16 if "aes" in op else 8
    k = p.apool({"ecb.aes.seq": size, "ecb.des.seq": 8, "ecb.tdes.seq": p.some(16, 24)}[op])
    some = [p.bytes(bl) for _ in range(2)]
    blocks, dirs = [], []
    for _ in range(p.r.randrange(2, 7)):
        blocks.append(p.r.choice(some) if p.chance(0.4) else p.bytes(bl) if p.chance(0.9) else p.bytes(p.r.randrange(0, 33)))
        dirs.append(p.r.randrange(2))
    return L(op, key=k, block=b"".join(blocks), lens=[len(b) for b in blocks], dirs=dirs)


SEQ_OPS = ["ecb.aes.seq", "ecb.des.seq", "ecb.tdes.seq"]
LIB_OPS = ["des.ik", "des.tk", "des.ep", "des.dp", "des.mac", "des.en", "des.de",
           "aes.ik", "aes.tk", "aes.ep", "aes.dp", "aes.cmac", "aes.hmac", "aes.en", "aes.de",
           "ksn.des", "ksn.aes", "ksn.valid", "ksn.tcdes", "ksn.tcaes"]
ECB_OPS = ["ecb.aes.enc", "ecb.aes.dec", "ecb.des.enc", "ecb.des.dec", "ecb.tdes.enc", "ecb.tdes.dec"]
ALL_OPS = LIB_OPS + ECB_OPS + SEQ_OPS + ["hex.enc", "hex.dec"]
BYTE_ARGS = ["bdk", "ik", "key", "ksn", "ct", "iv", "block", "data"]
TEXT_ARGS = ["pin", "pan", "text", "fmt"]


def heaps(p, n):
    out = []
    while len(out) < n:
        for op in ALL_OPS:
            o = any_valid(p, op)
            o["heap"] = True
            if p.chance(0.2):                 # lengths that are not the usual ones
                f = p.r.choice([a for a in BYTE_ARGS if a in o] or ["-"])
                if f in o:
                    o[f] = ints(p.bytes(p.r.randrange(0, 40)))
            out.append(o)
    return out


def longer(p, ops):
    """arguments whose length is right but for a multiple of 256 or of 65,536"""
    out = []
    for op in ops:
        for f in BYTE_ARGS + TEXT_ARGS + ["type", "action"]:
            for more in (256, 256, 512, 65536):
                o = any_valid(p, op)
                if f not in o or f in ("text", "data"):
                    continue
                if f in ("type", "action"):
                    o[f] += p.some("x", "1", " ", "\x00") * more
                elif f in ("pin", "pan"):
                    d = bytes(p.r.choice(b"0123456789") for _ in range(more))
                    o[f] = ints(bytes(o[f]) + d if p.chance(0.7) else d + bytes(o[f]))
                else:
                    o[f] = o[f] + ints(p.bytes(more)) if p.chance(0.5) else o[f] + [p.some(0, 0x20)] * more
                out.append(o)
    return out


def malformed(p, n):
    out = longer(p, [op for op in ALL_OPS if op not in SEQ_OPS])
    for op in ALL_OPS:
        if op == "hex.enc":
            continue
        tmpl = any_valid(p, op)
        for f in BYTE_ARGS:
            if f not in tmpl:
                continue
            for m in range(0, 41):
                o = any_valid(p, op)
                o[f] = ints(p.bytes(m))
                out.append(o)
            o = any_valid(p, op)
            o[f] = []
            o["nil"] = True
            out.append(o)
            for m in (63, 64, 65, 127, 128, 255, 256, 257, 1000):
                o = any_valid(p, op)
                o[f] = ints(p.bytes(m))
                out.append(o)
        for f in TEXT_ARGS:
            if f not in tmpl:
                continue
            for m in range(0, 26):
                o = any_valid(p, op)
                o[f] = ints(p.text(m))
                out.append(o)
            for _ in range(30):
                o = any_valid(p, op)
                o[f] = ints((p.nearhex if op == "hex.dec" else p.off)(bytes(o[f])))
                out.append(o)
        for f, vals in (("type", ["", "AES", "AES64", "AES512", "aes128", "HMAC", "HMAC512", "HMAC128", "HMAC192", "HMAC256",
                                  "AES128", "AES192", "AES256", "2TDES", "DES", "\u00e9"]),
                        ("action", ["", "x", "RESPONSE", "respons", "response\x00"])):
            if f in tmpl:
                for v in vals:
                    for _ in range(3):
                        o = any_valid(p, op)
                        o[f] = v
                        out.append(o)
    while len(out) < n:                        # several arguments at once
        o = any_valid(p)
        fs = [a for a in BYTE_ARGS + TEXT_ARGS if a in o]
        for f in p.r.sample(fs, min(len(fs), p.r.randrange(1, 4))):
            if f in ("text", "data"):
                continue
            o[f] = ints(p.bytes(p.r.randrange(0, 40)) if f in BYTE_ARGS else p.text(p.r.randrange(0, 26)))
        out.append(o)
    return out


def hexes(p, n):
    out = []
    for b in range(256):
        out.append(L("hex.enc", data=bytes([b])))
        out.append(L("hex.dec", text=b"%02x" % b))
        out.append(L("hex.dec", text=b"%02X" % b))
        out.append(L("hex.dec", text=bytes([b]) + b"0"))
        out.append(L("hex.dec", text=b"0" + bytes([b])))
        for more in (b"", b"0a", p.nearhex(p.bytes(3).hex().encode()), p.bytes(2).hex().upper().encode() + b"1"):
            out.append(L("hex.decrow", data=more + bytes([b])))         # every text of two bytes, and more
        out.append(L("hex.encrow", data=bytes([b])))
    while len(out) < n:
        k = p.r.randrange(6)
        if k == 0:
            out.append(L("hex.enc", data=p.bytes(p.r.randrange(0, 64))))
        elif k >= 4:
            out.append(L("hex.dec", text=p.nearhex(p.bytes(p.r.randrange(0, 70)).hex().encode())))
        elif k == 1:
            t = p.bytes(p.r.randrange(0, 40)).hex()
            out.append(L("hex.dec", text="".join(c.upper() if p.chance(0.3) else c for c in t).encode()))
        elif k == 2:
            t = bytearray(p.bytes(p.r.randrange(1, 20)).hex().encode())
            t[p.r.randrange(len(t))] = p.r.randrange(256)
            out.append(L("hex.dec", text=bytes(t)))
        else:
            out.append(L("hex.dec", text=p.bytes(p.r.randrange(0, 20)).hex().encode()[p.some(0, 1):]))
    for m in (255, 256, 511, 512, 1000, 1024, 1025, 4096, 5000, 70000):
        t = p.bytes(m)
        out.append(L("hex.enc", data=t))
        out.append(L("hex.dec", text=t.hex().encode()))
        out.append(L("hex.dec", text=p.nearhex(t.hex().encode())))
    for _ in range(n // 10):
        out.append(L("ksn.tcdes", ksn=p.bytes(p.r.randrange(4, 20))))
        out.append(L("ksn.tcaes", ksn=p.bytes(p.r.randrange(5, 20))))
        out.append(L("ksn.tcdes", ksn=p.desksn()))
        out.append(L("ksn.tcaes", ksn=p.aesksn()))
    return out


def ecbs(p, n):
    out = []
    for op in ECB_OPS:
        bl = 16 if "aes" in op else 8
        sizes = {"aes": (16, 24, 32), "des": (8,), "tdes": (16, 24)}[op.split(".")[1]]
        for s in sizes:
            for i in range(8 * bl):
                out.append(L(op, key=p.apool(s), block=(1 << i).to_bytes(bl, "big")))
            for i in range(8 * s):
                out.append(L(op, key=(1 << i).to_bytes(s, "big"), block=p.bytes(bl)))
        if bl == 8:                            # keys with which DES has few round keys, and texts that they leave alone
            for k in WEAK:
                for j in (k, bytes(b ^ 1 for b in k)):
                    for m in (8, 16, 24):
                        other = p.r.choice(WEAK + [p.raw(8)])
                        for key in {(j * 3)[:m], (j + other + j)[:m], (other + j + other)[:m], p.raw(8 * (m // 8 - 1)) + j}:
                            out.append(L(op, key=key, block=p.some(bytes(8), p.raw(8), k)))
        for m in range(0, 41):
            out.append(L(op, key=p.bytes(m), block=p.bytes(bl)))
            out.append(L(op, key=p.apool(sizes[0]), block=p.bytes(m)))
    for op in SEQ_OPS:
        for _ in range(n // 40):
            out.append(any_valid(p, op))
    while len(out) < n:
        op = p.r.choice(ECB_OPS)
        out.append(any_valid(p, op))
    return out
