"""Runs of PIN encryptions (drv mode "fill")."""
from libgen import L, case_mix
from pools import AES_TYPES, ints

RANDOM = {"ISO-1": 10, "ECI4": 10, "VISA2": 10, "ISO-3": 6, "VISA3": 6, "ECI2": 16, "ECI3": 16, "ISO-4": 16}
FIXED = ["ISO-0", "ISO-2", "ANSI", "ECI1", "VISA1", "VISA4"]


def call(p, layer, f, n, size):
    """one PIN encryption, with a PIN of n digits"""
    if f == "ISO-4":
        o = L("aes.ep", key=p.apool(size), ksn=p.aesksn(p.r.randrange(1, 1000)), pin=p.pin(n, n), pan=p.pan(12, 19), type=AES_TYPES[size], fmt=b"")
        if layer in ("uni", "svc", "http", "cli"):
            o["fmt"] = ints(p.some(b"ISO-4", b"ISO-0") if layer != "cli" else b"ISO-4")
    else:
        o = L("des.ep", key=p.apool(16), ksn=p.desksn(p.r.randrange(1, 1000)), pin=p.pin(n, n), pan=p.pan(), type="", fmt=case_mix(p, f).encode())
    if layer in ("svc", "http"):
        o["bdk"] = ints(p.raw(len(o["key"])))
    return o


def run(p, layer, f, many=1, threads=1, more=1):
    k = RANDOM.get(f, 1)
    n = p.some(4, 4, 5, p.r.randrange(4, 13))
    size = p.r.choice((16, 24, 32))
    return {"layer": layer, "calls": [call(p, layer, f, n, size) for _ in range(many)], "n": (120 * k + 8) * more, "threads": threads}


def runs(p, more=1):
    """every format through every layer"""
    out = []
    for layer in ("lib", "uni", "svc", "http"):
        for f in list(RANDOM) + FIXED:
            if f in FIXED:
                if layer == "lib" or p.chance(0.4):
                    out.append(run(p, layer, f, p.some(1, 2), p.some(1, 4)))
                continue
            out.append(run(p, layer, f, 1, 1, more))
            out.append(run(p, layer, f, p.some(2, 3), 1, more))
            out.append(run(p, layer, f, p.some(1, 1, 2), p.some(4, 8), more))
            if layer == "lib":
                out.append(run(p, layer, f, 40, 1, more))
    return out


def processes(p, more=1):
    """runs of which every process makes a part only: (run, how many encryptions a process)"""
    out = []
    for f in RANDOM:
        layer = p.some("lib", "svc", "http", "uni")
        out.append((run(p, layer, f, 1, 1, more), p.some(8, 16)))
        if f in ("ISO-4", "ISO-3", "ISO-1") or more > 1 and f not in ("ECI2", "ECI3"):
            out.append((run(p, "cli", f), 0))
    return out
