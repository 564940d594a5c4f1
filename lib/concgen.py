"""Scenarios of concurrent use of one service (drv mode "conc")."""
import svcgen
import httpgen
from pools import ints

LAST_DES, LAST_AES = svcgen.LAST_DES, svcgen.LAST_AES


def base(p, alg=None, quick=True):
    """a base key, mostly with a counter whose key is derived fast"""
    alg = alg or p.some("des", "des", "des", "aes")
    if alg == "aes":
        c = p.some(0, 1, 3, 7, 1 << 31, LAST_AES - (1 << 16) if not quick else 5, LAST_AES if p.chance(0.3) else 2)
    else:
        c = p.some(0, 1, 2, 3, 1 << 20, LAST_DES, LAST_DES - 0x800 if not quick else 6)
    return svcgen.base(p, alg, size=p.some(16, 16, 32) if alg == "aes" else None, ctr=c)


def bases(p):
    bs = [base(p)]
    if p.chance(0.5):                       # the same device with another counter: the same initial key
        b = dict(bs[0])
        t = bytes(b["ksn"]).decode()
        b["ksn"] = ints((t[:-1] + "%x" % p.r.randrange(8)).encode())
        bs.append(b)
    if p.chance(0.4):
        bs.append(base(p))
    if p.chance(0.1):                       # one that is refused
        b = dict(bs[0])
        b["bdk"] = b["bdk"][2:]
        bs.append(b)
    return bs


def op(p, kind, i):
    o = {"op": kind, "base": i}
    if kind == "crypto":
        while True:
            o = svcgen.crypto(p, {"base": i})
            if o["op"] == "ep" and o["fmt"] and bytes(o["fmt"]).upper() not in (b"ISO-0", b"ISO-2", b"ANSI", b"VISA4"):
                continue                    # no random fill: an answer then says which key it was made with
            break
    if kind == "create":
        o["junk"] = p.chance(0.2)
    return o


KINDS = {"next": 8, "create": 4, "delete": 3, "get": 3, "list": 2, "crypto": 4}


def web(p, o):
    """the same operation as a request"""
    q = {"create": lambda: {"method": "POST", "path": "machine", "segs": 1}, "list": lambda: {"method": "GET", "path": "machines", "segs": 1},
         "get": lambda: {"method": "GET", "path": "machine", "segs": 2}}.get(
        o["op"], lambda: {"method": "POST", "path": httpgen.PATHS[o["op"]], "segs": 2})()
    q.update(base=o["base"], origin=[], style=0)
    return q


def request(p, o, bs):
    q = web(p, o)
    if o["op"] == "create":
        b = bs[o["base"]]
        q["alg"], q["akey"] = b["alg"], b["akey"]
        q["fields"] = [{"n": "Algorithm", "v": ints(b["alg"].encode())}, {"n": "AlgorithmKey", "v": ints(b["akey"].encode())},
                       {"n": "BaseDerivativeKey", "v": b["bdk"]}, {"n": "KeySerialNumber", "v": b["ksn"]}]
    elif o["op"] in httpgen.NAMES:
        q["fields"] = httpgen.fields_of(p, o)
    return q


def operation(p, bs, hot, share, kinds=KINDS):
    k = p.r.choices(list(kinds), list(kinds.values()))[0]
    i = hot if p.chance(0.85) else p.r.randrange(len(bs))
    o = op(p, k, i)
    if o["op"] != "delete" and p.chance(share):
        return request(p, o, bs)
    return o


def setting(p, bs):
    s = []
    for i in range(len(bs)):
        if p.chance(0.6):
            s.append({"op": "create", "base": i})
            if p.chance(0.3):
                s.append(op(p, "crypto", i))
    return s


def mixed(p, how, threads, steps, share=None, kinds=KINDS, **more):
    bs = bases(p)
    hot = 0
    if share is None:
        share = p.some(0, 0, 0.5)
    return dict(how=how, bases=bs, setup=setting(p, bs), seed=p.r.randrange(1 << 30),
                threads=[[operation(p, bs, hot, share, kinds) for _ in range(p.r.randrange(1, steps + 1))] for _ in range(threads)], **more)


PAIR = ["create", "next", "delete", "get", "list", "crypto"]


def pairs(p, budget):
    """every two kinds of operations on one machine that is there, and on one that is not"""
    out = []
    for a in range(len(PAIR)):
        for b in range(a, len(PAIR)):
            for there in (True, False):
                if not there and "create" not in (PAIR[a], PAIR[b]):
                    continue
                bs = [base(p, "des"), base(p, "aes")]
                out.append({"how": "sched", "bases": bs, "setup": [{"op": "create", "base": i} for i in (0, 1) if there],
                            "threads": [[op(p, PAIR[a], 0)], [op(p, PAIR[b], 0)]], "budget": budget, "seed": p.r.randrange(1 << 30)})
    return out


def sched(p, n, budget):
    out = pairs(p, budget) + watched(p, n // 4, "sched", budget, 0)
    for _ in range(n):
        out.append(mixed(p, "sched", p.some(2, 2, 3, 3, 4), 3, budget=budget, most=60))
    return out


def spread(p, k):
    """k base keys of machines whose initial keys have nothing in common"""
    bs = []
    while len(bs) < k:
        b = base(p, "des")
        b["bdk"] = ints(p.raw(len(b["bdk"]) // 2).hex().encode())
        bs.append(b)
    return bs


def watched(p, n, how, budget, rounds):
    """one or two clients change machine after machine, while others look at them all"""
    out = []
    for _ in range(n):
        k = p.r.randrange(2, 6)
        bs = spread(p, k)
        there = [i for i in range(k) if p.chance(0.4)]

        def changes():
            ops, seen = [], set(there)
            for i in p.r.sample(range(k), k)[:p.some(2, 2, 3)]:
                o = {"op": "delete" if i in seen and p.chance(0.7) else "next" if i in seen and p.chance(0.5) else "create", "base": i}
                if o["op"] == "create":
                    o["junk"] = False
                ops.append(o)
            return ops

        def looks():
            if p.chance(0.75):
                return [{"op": "list", "base": 0}] * p.some(1, 1, 2)
            return [{"op": "get", "base": i} for i in p.r.sample(range(k), 2)]
        ts = [changes() for _ in range(p.some(1, 1, 2))] + [looks() for _ in range(p.some(1, 1, 2) if how == "sched" else p.some(2, 3))]
        if p.chance(0.3):
            ts = [[request(p, o, bs) if o["op"] != "delete" and p.chance(0.6) else o for o in t] for t in ts]
        out.append({"how": how, "bases": bs, "setup": [{"op": "create", "base": i} for i in there], "seed": p.r.randrange(1 << 30),
                    "threads": ts, "budget": budget, "rounds": rounds, "most": 60})
    return out


def stress(p, n, rounds):
    return watched(p, n // 4, "stress", 0, rounds * 3) + [mixed(p, "stress", p.some(2, 3, 4, 6), p.some(2, 3, 4), rounds=rounds, most=80) for _ in range(n)]


def spin(p, n, length):
    out = []
    for _ in range(n):
        b = svcgen.base(p, p.some("des", "aes"), ctr=p.some(0, 1, p.r.randrange(1 << 16), None))
        out.append({"how": "spin", "bases": [b], "writers": p.some(1, 2, 3), "readers": p.some(2, 4, 6), "n": length})
    return out


def stores(p, n, rounds, how="stress"):
    """the store by itself: few initial keys, machines that differ"""
    out = []
    for _ in range(n):
        iks = [p.raw(16).hex().encode() for _ in range(p.some(1, 1, 2, 3, 4, 5))]
        ms = []
        for i in range(max(4, len(iks))):
            m = svcgen.stored(p)
            m["ik"] = ints(iks[i] if i < len(iks) else p.r.choice(iks))
            ms.append(m)

        def one():
            k = p.r.choices(["store", "find", "drop", "all"], [4, 2, 2, 2])[0]
            o = {"op": k}
            if k == "store":
                o["m"] = p.r.choice(ms)
            elif k != "all":
                o["ik"] = ints(p.r.choice(iks))
            return o
        if p.chance(0.3):                    # one client goes from machine to machine, the others look at them all
            there = p.r.sample(range(len(ms)), p.r.randrange(len(ms)))
            go = [{"op": "drop", "ik": ms[i]["ik"]} if i in there else {"op": "store", "m": ms[i]} for i in p.r.sample(range(len(ms)), 3)]
            out.append({"how": how, "bases": [], "seed": p.r.randrange(1 << 30), "most": 80, "rounds": rounds * 3, "budget": rounds,
                        "setup": [{"op": "store", "m": ms[i]} for i in there],
                        "threads": [go] + [[{"op": "all"}] * p.some(1, 1, 2) for _ in range(p.some(1, 2, 3))]})
            continue
        steps = p.some(2, 3, 4)
        out.append({"how": how, "bases": [], "seed": p.r.randrange(1 << 30), "most": 80, "rounds": rounds, "budget": rounds,
                    "setup": [one() for _ in range(p.r.randrange(4))],
                    "threads": [[one() for _ in range(p.r.randrange(1, steps + 1))] for _ in range(p.some(2, 3, 4, 6) if how == "stress" else p.some(2, 2, 3))]})
    return out


def store_schedules(p, n, budget):
    return stores(p, n, budget, "sched")


FOCUS = {
    "keys": {"next": 8, "create": 1, "delete": 0.5, "get": 5, "list": 2},
    "registry": {"next": 2, "create": 6, "delete": 4, "get": 4, "list": 4},
    "crypto": {"next": 3, "create": 0.5, "delete": 0.5, "crypto": 9},
    "requests": {"next": 5, "create": 4, "get": 3, "list": 2, "crypto": 8},
}


def focused(how, focus, share=None):
    """mostly the operations that a property is about"""
    def gen(p, n, budget):
        out = []
        for _ in range(n):
            threads, steps = (p.some(2, 2, 3), 2) if how == "sched" else (p.some(2, 3, 4, 6), p.some(2, 3, 4))
            o = mixed(p, how, threads, steps, share=share, kinds=FOCUS[focus], budget=budget, rounds=budget, most=50)
            if focus == "crypto" or focus == "keys":
                o["setup"] = [{"op": "create", "base": i} for i in range(len(o["bases"]))] + [x for x in o["setup"] if x["op"] != "create"]
            out.append(o)
        return out
    gen.__name__ = f"{focus} {how}"
    return gen


def firsts(how, focus, share=None):
    """scenarios for processes in which nothing has happened yet: everybody does the same at first"""
    def gen(p, n, runs):
        out = []
        for _ in range(n):
            bs = spread(p, p.some(1, 2, 3))
            if p.chance(0.4):
                bs = [base(p, "aes")] + bs[1:]
            kinds = FOCUS.get(focus, KINDS)
            k = p.r.choices(list(kinds), list(kinds.values()))[0]
            o = op(p, k, 0)
            s = p.some(0, 0.5) if share is None else share

            def one():
                x = dict(o, base=p.r.randrange(len(bs)))
                return request(p, x, bs) if k != "delete" and p.chance(s) else x
            out.append({"how": how, "bases": bs, "first": True, "seed": p.r.randrange(1 << 30), "rounds": runs, "budget": runs, "most": 50,
                        "setup": [{"op": "create", "base": i} for i in range(len(bs)) if k != "create" or p.chance(0.3)],
                        "threads": [[one()] + [operation(p, bs, 0, s, kinds) for _ in range(p.some(0, 0, 1))]
                                    for _ in range(p.some(2, 2, 3) if how == "sched" else p.some(3, 4))]})
        return out
    gen.__name__ = f"{focus} {how} in new processes"
    return gen
