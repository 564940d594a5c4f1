"""Lives of server processes (drv mode "proc")."""
from pools import ints
import json


def post(p):
    """a request: path, body, and what must not show anywhere but in its answer"""
    def hexa(n):
        return p.raw(n).hex()
    k = p.r.randrange(6)
    if k == 0:
        b = {"Algorithm": "des", "BaseDerivativeKey": hexa(16), "KeySerialNumber": "FFFF9876543210E00001"}
        return "/machine", b, [b["BaseDerivativeKey"]]
    ik = hexa(16)
    if k == 1:
        b = {"pin": "%08d" % p.r.randrange(10 ** 8), "pan": "%016d" % p.r.randrange(10 ** 16), "format": "ISO-0"}
        return "/encrypt_pin/" + ik, b, [b["pin"], b["pan"], ik]
    if k == 2:
        b = {"data": "secret text " + hexa(6), "action": "request", "iv": ""}
        return "/encrypt_data/" + ik, b, [b["data"], ik]
    if k == 4:
        b = {"encrypted": hexa(8), "pan": "%016d" % p.r.randrange(10 ** 16), "format": "ISO-0"}
        return "/decrypt_pin/" + ik, b, [b["encrypted"], b["pan"], ik]
    if k == 5:
        b = {"data": hexa(8), "action": "request", "iv": hexa(8)}
        return "/decrypt_data/" + ik, b, [b["data"], b["iv"], ik]
    b = {"data": "secret text " + hexa(6), "action": "request", "macType": "cmac"}
    return "/generate_mac/" + ik, b, [b["data"], ik]


def ask(p):
    path, b, secrets = post(p)
    if p.chance(0.2):
        return {"do": "ask", "path": path, "body": ints((json.dumps(b) + "x").encode()), "secrets": [ints(s.encode()) for s in secrets]}
    return {"do": "ask", "path": path, "body": ints(json.dumps(b).encode()), "secrets": [ints(s.encode()) for s in secrets], "follow": path == "/machine"}


def begin(p, r):
    path, b, _ = post(p)
    return {"do": "begin", "r": r, "path": path, "body": ints(json.dumps(b).encode())}


def probes(p, names="abcd"):
    return [{"do": "probe", "at": a} for a in p.r.sample(names, len(names))]


def scenario(p, k):
    c = dict(httpflag=p.some("a", "a", ""), httpenv=p.some("", "", "b"), adminflag=p.some("c", "c", ""), adminenv=p.some("", "", "d"),
             cert="", key="", logflag=p.some("", "json", "plain"), logenv=p.some("", "", "json", "plain"), taken=[])
    if not c["httpflag"] and not c["httpenv"]:
        c["httpenv"] = "b"
    if not c["adminflag"] and not c["adminenv"]:
        c["adminenv"] = "d"
    serves = True
    tls = k % 3 == 1
    if tls:
        c["cert"] = c["key"] = "good"
    elif p.chance(0.3):                     # only one of them: plain
        c[p.some("cert", "key")] = p.some("good", "bad", "missing")
    if k % 5 == 4:                          # cannot serve
        serves = False
        w = p.r.randrange(4)
        if w == 0:
            c["taken"] = [c["httpenv"] or c["httpflag"]]
        elif w == 1:
            c["taken"] = [c["adminenv"] or c["adminflag"]]
        elif w == 2:
            c["cert"], c["key"] = p.some(("good", "bad"), ("bad", "good"), ("missing", "good"), ("good", "missing"))
        else:
            a = c["httpenv"] or c["httpflag"]
            c["adminenv"] = a
    elif p.chance(0.3):                     # an address that is overridden may be taken
        for f, e in (("httpflag", "httpenv"), ("adminflag", "adminenv")):
            if c[f] and c[e]:
                c["taken"] = [c[f]]
    s = []
    if not serves:
        s = [{"do": "exit"}] + probes(p) + [{"do": "log"}]
        return {"config": c, "steps": s}
    s += probes(p)
    admin = c["adminenv"] or c["adminflag"]
    s.append({"do": "version", "at": admin})
    if tls:
        s += [{"do": "tls", "max": v} for v in ("1.0", "1.1", "1.2", "1.3")]
    for _ in range(p.r.randrange(6)):
        s.append(p.some(ask(p), ask(p), {"do": "idle", "used": True}, {"do": "garbage", "bytes": ints(p.r.choice([
            p.text(30), b"GET / HTTP/9.9\r\n\r\n", b"POST /machine HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", b"\x16\x03\x01\x02\x00", b"\r\n\r\n"]))}))
    long = k % 40 in (3, 6)                 # a request that takes its time, before the signal or after
    n = 2 if long else p.r.randrange(0, 4)
    open_ = []
    for r in range(1, n + 1):
        s.append(begin(p, r))
        open_.append(r)
        if p.chance(0.4):
            s.append(ask(p))
        if p.chance(0.2):
            s.append({"do": "finish", "r": open_.pop(p.r.randrange(len(open_)))})
    if k % 40 == 3:
        s.append({"do": "alive", "ms": 16000})
        if open_:
            s.append({"do": "finish", "r": open_.pop()})
    elif p.chance(0.1):
        s.append({"do": "alive", "ms": 3000})
        s += probes(p)
    s.append({"do": "signal", "sig": p.some("TERM", "INT")})
    s.append({"do": "closed"})
    if p.chance(0.5):
        s.append({"do": "probe", "at": c["httpenv"] or c["httpflag"]})
    if k % 40 == 6 and open_:
        s.append({"do": "alive", "ms": 21000})
    while open_:
        if p.chance(0.3):
            s.append({"do": "signal", "sig": p.some("TERM", "INT")})
        if p.chance(0.6):
            s.append({"do": "alive", "ms": p.some(50, 200, 600)})
        s.append({"do": p.some("finish", "finish", "finish", "drop"), "r": open_.pop(p.r.randrange(len(open_)))})
    s += [{"do": "exit"}] + probes(p) + [{"do": "log"}]
    return {"config": c, "steps": s, "serves": True}


def lives(p, n):
    return [{"scenarios": [scenario(p, k) for k in range(i, min(n, i + 40))], "atonce": 8} for i in range(0, n, 40)]


def configured(p, c, serves):
    """the shortest life of a process with a configuration of the model"""
    c = dict(c, logflag=p.some("", "json", "plain"), logenv=p.some("", "", "json", "plain"))
    if not serves:
        return {"config": c, "steps": [{"do": "exit"}] + probes(p) + [{"do": "log"}]}
    s = probes(p) + [{"do": "version", "at": c["adminenv"] or c["adminflag"]}]
    if c["cert"] and c["key"]:
        s += [{"do": "tls", "max": v} for v in ("1.0", "1.1", "1.2", "1.3")]
    s += [ask(p), {"do": "signal", "sig": p.some("TERM", "INT")}, {"do": "closed"}, {"do": "exit"}] + probes(p) + [{"do": "log"}]
    return {"config": c, "steps": s, "serves": True}


def played(p, path):
    """a life that the model wrote out"""
    c = dict(httpflag="a", httpenv="", adminflag="c", adminenv="", cert="", key="", taken=[],
             logflag=p.some("", "json", "plain"), logenv=p.some("", "", "json", "plain"))
    if p.chance(0.3):
        c["cert"] = c["key"] = "good"
    s, told = probes(p, "a"), False
    for l in path:
        d = l["do"]
        if d == "ask":
            s.append(ask(p))
        elif d == "idle":
            s.append({"do": "idle", "used": p.chance(0.7)})
        elif d == "begin":
            s.append(begin(p, l["r"]))
        elif d == "signal":
            s.append({"do": "signal", "sig": p.some("TERM", "INT")})
            if not told:
                s.append({"do": "closed"})
            elif p.chance(0.5):
                s.append({"do": "alive", "ms": p.some(50, 300)})
            told = True
        else:
            s.append({"do": d, "r": l["r"]})
    return {"config": c, "steps": s + [{"do": "exit"}] + probes(p) + [{"do": "log"}], "serves": True}


def request(p, kind):
    """head and body of a request: of a creation (of a machine that nobody else makes), of a query, of an operation"""
    if kind == "get":
        return p.some(b"GET /ping HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /machines HTTP/1.1\r\nHost: localhost\r\nAccept: */*\r\n\r\n"), b""
    if kind == "make":
        path, b = "/machine", {"Algorithm": "des", "BaseDerivativeKey": p.raw(16).hex(), "KeySerialNumber": "FFFF9876543210E00001"}
    else:
        path, b = "/encrypt_pin/" + p.raw(16).hex(), {"pin": "1234", "pan": "4012345678909", "format": "ISO-0"}
    body = json.dumps(b).encode()
    if p.chance(0.3):
        head = "POST %s HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n" % path
        n = p.r.randrange(1, len(body))
        return head.encode(), b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in (body[:n], body[n:])) + b"0\r\n\r\n"
    return ("POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % (path, len(body))).encode(), body


def sending(p, at, until, kind, upto=1.0):
    """a request sent in pieces of at least four bytes between two times, the last one at the later; upto: how much of it"""
    head, body = request(p, kind)
    whole = head + body
    n = len(whole) if upto == 1.0 else max(4, min(len(whole) - 8, int(len(whole) * upto)))
    k = p.r.choice([1, 2, 3, 10]) if until > at else 1
    cuts = sorted({c for c in [p.r.randrange(4, n) for _ in range(k)] if c < n} | {n}) if n > 5 and until > at else [n]
    steps, last = [], 0
    for i, c in enumerate(cuts):
        t = until if c == n else at + (until - at) * i // len(cuts)
        what = "whole" if c == len(whole) else "some" if c < len(head) else "part" if last >= len(head) else "headed"
        steps.append({"at": t, "what": what, "bytes": ints(whole[last:c])})
        last = c
    return steps


def course(p, secure):
    """a connection's plan, nothing of which falls near a time limit"""
    k = p.r.randrange(14)
    kind = p.some("make", "make", "other", "get")
    if k > 11 and kind == "get":
        kind = "make"
    o = {"expect": [404 if kind == "other" else 200], "makes": False, "hello": False, "small": False, "until": 50000}
    if k == 0:                                          # nothing, or nothing of a request
        o["hello"] = secure and p.chance(0.5)
        o["plan"] = [{"at": p.r.randrange(0, 5000), "what": "some", "bytes": ints(b"\x16\x03\x01\x02\x00\x01" if secure else b"POST")}] if o["hello"] and p.chance(0.5) else []
    elif k in (1, 2):                                   # a request that does not come to its end, at once or slowly
        o["makes"] = kind == "make"
        last = p.some(0, 3000, 20000, 44000)
        o["plan"] = sending(p, 0, last, kind, p.some(0.1, 0.3, 0.5, 0.7, 0.9))
    elif k in (3, 4):                                   # one that comes too late
        o["makes"] = kind == "make"
        o["plan"] = sending(p, 0, 2000, kind, p.some(0.2, 0.6, 0.8)) + [{"at": 48000, "what": "whole", "bytes": ints(b"x")}]
    elif k in (5, 6, 7):                                # one that comes slowly, in time
        o["makes"] = kind == "make"
        first = p.some(0, 10000)
        o["plan"] = sending(p, first, p.r.randrange(first, 21000), kind)
        o["until"] = 110000 if p.chance(0.5) else 40000
    elif k in (8, 9):                                   # after an answer: nothing, part of a request, or a whole one
        o["makes"] = kind == "make"
        o["plan"] = sending(p, 0, 0, kind)
        t = p.r.randrange(33000, 48000)
        w = p.r.randrange(3)
        o["until"] = 90000
        if w == 1:
            o["plan"] += sending(p, t, t + p.r.randrange(0, 20000), "other")
            o["expect"].append(404)
            o["until"] = t + 40000
        elif w == 2:
            o["plan"] += sending(p, t, t + 2000, "make", p.some(0.3, 0.6, 0.9))
            o["until"] = t + 55000
    elif k in (12, 13):                                 # a body of which a part comes after a while, and then nothing
        o["makes"] = kind == "make"
        head, body = request(p, kind)
        n = p.r.randrange(8, len(body) - 12)
        o["plan"] = [{"at": p.r.randrange(3000), "what": "headed", "bytes": ints(head + body[:n])},
                     {"at": p.r.randrange(9000, 25000), "what": "part", "bytes": ints(body[n:p.r.randrange(n + 4, len(body) - 4)])}]
    else:                                               # answers that nobody takes, for a while or for long
        o["small"], o["flood"] = True, 150000
        o["plan"] = [{"at": 0, "what": "flood", "bytes": ints(b"GET /ping HTTP/1.1\r\nHost: x\r\n\r\n")},
                     {"at": 15000 if k == 10 else 50000, "what": "read"}]
        o["until"] = 75000
    return o


def stall(p, k):
    """the life of a process with clients that stall or are slow"""
    c = dict(httpflag="a", httpenv="", adminflag="c", adminenv="", cert="", key="", logflag="", logenv="", taken=[])
    secure = k % 3 == 1
    if secure:
        c["cert"] = c["key"] = "good"
    many, floods = [], 0
    while len(many) < 60:
        o = course(p, secure)
        floods += o["small"]
        if not o["small"] or floods <= 2:
            many.append(o)
    s = [{"do": "probe", "at": "a"}, {"do": "connect", "list": many}]
    told = k % 2 == 1
    for _ in range(4 if not told else p.r.randrange(1, 4)):       # meanwhile
        s.append({"do": "alive", "ms": p.some(1000, 4000, 8000)})
        path, b, secrets = post(p)
        while path == "/machine":
            path, b, secrets = post(p)
        s.append({"do": "ask", "path": path, "body": ints(json.dumps(b).encode()), "secrets": []})
    if told:
        for o in many:
            if o["small"]:
                o["plan"], o["small"], o["flood"] = [], False, 0
        s += [{"do": "signal", "sig": p.some("TERM", "INT")}, {"do": "closed"}, {"do": "exit", "ms": 50000}, {"do": "reap"}]
    else:
        s += [{"do": "reap"}, {"do": "machines"}, {"do": "signal", "sig": "TERM"}, {"do": "closed"}, {"do": "exit"}]
    return {"config": c, "steps": s + [{"do": "log"}], "serves": True}


def stalls(p, n):
    return [{"scenarios": [stall(p, k) for k in range(i, min(n, i + 8))], "atonce": 8} for i in range(0, n, 8)]
