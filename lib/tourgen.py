"""Behaviours of the model (ServiceTours), made into histories for the real service and for its HTTP front."""
import collections
import json

from pools import ints
import httpgen
import svcgen


def printed(out, word):
    """the JSON texts after a word in what TLC printed"""
    start = '"' + word + " "
    return [json.loads(json.loads(line)[len(word) + 1:]) for line in out.splitlines() if line.startswith(start)]


def tours(p, steps, longest):
    """walks from the empty registry that take every step of the graph at least once"""
    out = collections.defaultdict(list)           # place -> steps not taken yet
    ways = collections.defaultdict(dict)          # place -> other place -> a step that leads there
    for s in sorted(steps, key=json.dumps):
        out[s["from"]].append(s)
        if s["to"] != s["from"]:
            ways[s["from"]].setdefault(s["to"], s)
    for l in out.values():
        p.r.shuffle(l)
    left = len(steps)
    walks = []
    while left:
        at, walk = "{}", []
        while left and len(walk) < longest:
            if out[at]:
                s = out[at].pop()
                left -= 1
                walk.append(s["label"])
                at = s["to"]
                continue
            seen, queue = {at: None}, collections.deque([at])
            while queue:                          # the nearest place with something left
                x = queue.popleft()
                if out[x]:
                    break
                for y, s in ways[x].items():
                    if y not in seen:
                        seen[y] = s
                        queue.append(y)
            else:
                break
            back = []
            while seen[x] is not None:
                back.append(seen[x])
                x = seen[x]["from"]
            for s in reversed(back):
                walk.append(s["label"])
                at = s["to"]
        walks.append(walk)
    return walks


def last_counters(bits, ones, n):
    """the n last counters of no more than so many ones, the last one last"""
    found, c = [], (1 << bits) - 1
    while len(found) < n:
        if bin(c).count("1") <= ones:
            found.append(c)
            c -= 1
        else:
            c -= c & -c                           # clear the lowest one: nothing in between has fewer
    return found[::-1]


def cast(p, most, names):
    """real base keys for the symbolic ones: (algorithm, number, KSN) -> base key"""
    des, aes = last_counters(21, 10, most + 1), last_counters(32, 16, most + 1)
    actors = {}
    for alg, bdk in sorted({(a, b) for a, b in names if b}):
        alike = actors.get((alg, 3 - bdk, 0))
        b = svcgen.base(p, alg if alg in ("des", "aes") else p.some("des", "aes"))
        if alike and p.chance(0.7):
            b = dict(alike)
            t = list(b["bdk" if p.chance(0.5) else "ksn"])
            if len(t) == len(b["ksn"]):           # the same key in a device whose number differs in one digit
                i = p.r.randrange(len(t) - (6 if alg == "des" else 8))
                t[i] = ints(b"%x" % (int(chr(t[i]), 16) ^ p.r.choice((1, 2, 4, 8))))[0]
                b["ksn"] = t
            else:                                 # a key that differs in one digit, in the same device
                i = p.r.choice((0, 15, 16, len(t) - 1))
                t[i] = ints(b"%x" % (int(chr(t[i]), 16) ^ (2 if alg == "des" else 1)))[0]
                b["bdk"] = t
        for k in range(most + 1):
            h = bytes(b["ksn"]).decode()
            if b["alg"] == "aes":
                h = h[:-8] + "%08x" % aes[k]
            else:
                h = h[:-6] + "%06x" % (int(h[-6:], 16) & 0xE00000 | des[k])
            actors[alg, bdk, k] = dict(b, ksn=ints(h.encode()))
        if alg == "none":
            actors[alg, bdk, 0]["alg"] = p.some("", "DES", "tdes", "aes ")
    for alg in {a for a, b in names if not b}:
        b = svcgen.base(p, alg if alg in ("des", "aes") else p.some("des", "aes"))
        t = b["bdk"]
        b["bdk"] = p.some([], t[:-2], t + t[:2], ints(b"zz") + t[2:], t[:16], t[:-1])
        if alg == "none":
            b["alg"] = "none"
        actors[alg, 0, 0] = b
    return actors


def play(p, walks, most, listed, peeks=0.0):
    """the walks as histories for the driver's mode svc, with other keys now and then"""
    script, actors = [], {}
    for i, walk in enumerate(walks):
        asked = {(t["alg"], t["bdk"]) for t in walk if t["op"] != "list"}
        if not i % 50 or not asked <= {n[:2] for n in actors}:
            actors = cast(p, most, asked | {n[:2] for n in actors})
        names = sorted(actors)
        ops, made = [], {}                        # made: which of a machine's base keys told its initial key
        for t in walk:
            o = {"op": t["op"], "list": p.chance(listed)}
            if t["op"] == "create":
                o["base"], o["junk"] = names.index((t["alg"], t["bdk"], t["ksn"])), p.chance(0.1)
                if t["kind"] == "ok":
                    made[t["alg"], t["bdk"]] = o["base"]
            elif t["op"] != "list":
                o["base"] = made.get((t["alg"], t["bdk"]), names.index((t["alg"], t["bdk"], 0)))
            if t["op"] == "use":
                svcgen.linked(p, ops, svcgen.crypto(p, o))
                continue
            ops.append(o)
            if p.chance(peeks):
                ops.append({"op": p.some("peek", "peek", "poke"), "h": p.r.randrange(1000)})
        script.append({"bases": [actors[n] for n in names], "ops": ops})
    return script


def browse(p, walks, most, listed):
    """the walks as histories of HTTP requests"""
    script = []
    for h in play(p, walks, most, listed):
        bs, reqs = h["bases"], []
        for o in h["ops"]:
            q = httpgen.request(p, bs, o)
            q = httpgen.common(p, q, "")
            q["list"] = o.get("list", False)
            reqs.append(q)
        script.append({"reqs": reqs, "bs": bs})
    return script
