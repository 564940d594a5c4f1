"""Scripts of HTTP histories (drv mode "http")."""
from pools import ints, SAYINGS
import svcgen

ORIGINS = [b"", b"", b"http://localhost:3000", b"http://localhost:", b"http://localhost", b"http://localhost.evil.example",
           b"https://example.com", b"https://", b"http://example.com", b"http://127.0.0.1:8080", b"null", b"*",
           b"HTTPS://example.com", b"xhttps://example.com", b"http://xlocalhost:1", b"ftp://localhost:21", b"https://a.b:8443",
           b"http://example.com/?https://", b"Http://localhost:3000", b"https:/example.com"]

NAMES = {"ep": ["Pin", "Pan", "Format"], "dp": ["Encrypted", "Pan", "Format"], "mac": ["Action", "Data", "MacType"],
         "en": ["Action", "Data", "Iv"], "de": ["Action", "Data", "Iv"]}
PATHS = {"ep": "encrypt_pin", "dp": "decrypt_pin", "mac": "generate_mac", "en": "encrypt_data", "de": "decrypt_data",
         "next": "generate_ksn"}
MALFORMED = [b"", b" ", b"{", b"}", b"[]", b"\"Pin\"", b"12", b"true", b"{\"Pin\":}", b"{\"Pin\" \"1234\"}", b"{Pin:\"1234\"}",
             b"{'Pin':'1234'}", b"{\"x\":1,}", b"{} {}", b"{}x", b"nul", b"\xff\xfe{}", b"<a/>", b"Pin=1234&Pan=1", b"[{}]", b"{\"a\":\"\x01\"}"]

SPOILS = ["cut", "comma", "array", "text", "comment", "unquoted", "single", "nan", "control", "escape", "before",
          "x", "{}", "]", ",", "\"", "\n{\"x\":\"y\"}", " null", "\x00", "}"]


def case(p, n):
    k = p.r.randrange(6)
    if k == 0:
        return n.lower()
    if k == 1:
        return n[:1].lower() + n[1:]
    if k == 2:
        return n.upper()
    return n


def utf8(p, n):
    k = p.r.randrange(6)
    if k == 0:
        return "".join(p.r.choice("é€😀ß中\u2028<>&\"\\/\t\n\x00\x7f") for _ in range(n)).encode()
    if k == 1:
        return b"%s%d\\u0041" % (b"x" * n, n)
    return p.ascii(n)


def fields_of(p, o):
    """the fields of a crypto operation of svcgen"""
    op = o["op"]
    vals = {"Pan": o.get("pan"), "Format": o.get("fmt"), "Pin": o.get("pin"), "Iv": o.get("iv"),
            "Encrypted": o.get("ctelse"), "Data": o.get("ctelse") if op == "de" else o.get("text"),
            "Action": ints(o["action"].encode()) if "action" in o else None,
            "MacType": ints(o["mactype"].encode()) if "mactype" in o else None}
    fs = []
    for n in NAMES[op]:
        v = vals[n] or []
        if not v and p.chance(0.6):
            continue                                  # a missing field counts as empty
        if p.chance(0.01):
            continue
        f = {"n": case(p, n), "v": v}
        if op == "dp" and n == "Encrypted" and "ct" not in o:
            f["ct"] = "p"
        if op == "de" and n == "Data" and "ct" not in o:
            f["ct"] = "d"
        fs.append(f)
    if p.chance(0.3):
        p.r.shuffle(fs)
    return fs


TYPES = ["text/plain", "application/x-www-form-urlencoded", "multipart/form-data", "application/json; charset=iso-8859-1", "application/xml", "*/*", "json"]
HEADERS = [("X-Request-ID", "1"), ("X-Request-ID", "same"), ("X-Request-ID", "same"), ("X-User-ID", "moov"), ("Idempotency-Key", "k"), ("X-Idempotency-Key", "k"),
           ("Accept", "text/plain"), ("Accept", "application/xml"), ("Accept", "application/json"), ("Accept-Language", "de"), ("Authorization", "Bearer x"),
           ("Authorization", "Basic eDp5"), ("Cookie", "ik=x; moov_auth=y"), ("If-None-Match", "*"), ("If-Match", "\"1\""), ("If-Modified-Since", "Thu, 01 Jan 2099 00:00:00 GMT"),
           ("Range", "bytes=0-3"), ("X-HTTP-Method-Override", "GET"), ("X-HTTP-Method-Override", "DELETE"), ("X-Forwarded-For", "10.0.0.1"),
           ("X-Forwarded-Host", "https://example.com"), ("X-Forwarded-Proto", "https"), ("Referer", "https://example.com/"), ("User-Agent", "curl/8"),
           ("Cache-Control", "no-cache"), ("Cache-Control", "only-if-cached"), ("Pragma", "no-cache"), ("Access-Control-Request-Method", "POST"),
           ("Access-Control-Request-Method", "DELETE"), ("Access-Control-Request-Headers", "X-Custom, Content-Type"), ("Sec-Fetch-Mode", "cors"), ("Sec-Fetch-Site", "cross-site"),
           ("X-Requested-With", "XMLHttpRequest"), ("Content-Language", "de"), ("X-Forwarded-Origin", "https://a.example"), ("X-Original-URL", "/ping"), ("X-Rewrite-URL", "/ping")]
QUERY = [("ik", "x"), ("pin", "1"), ("format", "ISO-1"), ("Format", "ISO-3"), ("action", "response"), ("macType", "hmac"), ("iv", "0011223344556677"), ("data", "abc"),
         ("pan", "1"), ("limit", "1"), ("limit", "0"), ("offset", "1"), ("skip", "1"), ("count", "0"), ("page", "2"), ("algorithm", "aes"), ("pretty", "true"), ("debug", "1"),
         ("dry_run", "true"), ("reset", "1"), ("ksn", "FFFF"), ("origin", "https://x"), ("callback", "f"), ("_method", "DELETE"), ("id", "1"), ("encrypted", "00")]


def query(p):
    return "&".join("%s=%s" % x for x in p.r.sample(QUERY, p.r.randrange(1, 4)))


def common(p, q, focus):
    q["origin"] = ints(p.r.choice(ORIGINS) if p.chance(0.9 if focus == "front" else 0.3) else b"")
    q["style"] = p.r.choice((0, 0, 1, 2, 3, 4, 5))
    q["query"] = query(p) if p.chance(0.08) else ""
    q["ctype"] = p.some("", "application/json") if p.chance(0.9) else p.r.choice(TYPES)
    if p.chance(0.25):
        q["headers"] = [list(h) for h in p.r.sample(HEADERS, p.r.randrange(1, 4))]
    q["list"] = p.chance(0.5)
    if p.chance(0.2):
        q["frame"] = p.some("chunks", "pieces", "chunks in pieces")
    if q.get("segs") == 2 and p.chance(0.08):
        q["esc"] = [p.r.randrange(64) for _ in range(p.some(1, 1, 3, 40))]
    if "fields" in q and p.chance({"fail": 0.25, "front": 0.1}.get(focus, 0.01)):
        spoil(p, q)
    return q


def spoil(p, q):
    """a body that is not the object expected"""
    k = p.r.randrange(10)
    if k > 3:                                          # a good one with a flaw
        q["spoil"], q["at"] = "typed" if k > 6 else p.r.choice(SPOILS), p.r.randrange(60)
    elif k == 0:
        q["raw"] = ints(p.r.choice(MALFORMED))
    elif k == 1 and q["fields"]:
        n = p.r.choice(q["fields"])["n"].encode()      # a field that is no text
        v = p.r.choice([b"1234", b"true", b"[\"1\"]", b"{}", b"{\"a\":1}", b"1e3", b"[]"])
        q["raw"] = ints(b"{\"" + n + b"\":" + v + b"}")
    else:
        q["broken"] = True


def ik_of(p, q, bs, o):
    if "ik" in o and o["ik"] and 47 not in o["ik"]:
        q["ik"] = o["ik"]
    elif "mod" in o or "ik" not in o and p.chance(0.08):
        q["mod"] = o.get("mod") or p.r.choice(svcgen.MODS)
    elif p.chance(0.04):
        q["ik"] = ints(p.r.choice(SAYINGS if p.chance(0.5) else [b"x", b"%41", b"a b", b"0" * 32, b"?", "é".encode(), b"..x", b"{ik}"]))
    return q


def odd(p):
    """a request no route is for"""
    m = p.r.choice(["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "TRACE", "get"])
    path, segs = p.r.choice([("ping", 1), ("machines", 1), ("machine", 1), ("machine", 2), ("generate_ksn", 2), ("generate_ksn", 1),
                             ("encrypt_pin", 2), ("encrypt_pin", 1), ("decrypt_data", 3), ("machines", 2), ("", 1), ("Machines", 1),
                             ("encrypt", 2), ("machine", 3), ("favicon.ico", 1), ("pin", 2), ("PING", 1), ("generate_mac", 2)])
    good = {("GET", "ping", 1), ("GET", "machines", 1), ("GET", "machine", 2), ("POST", "machine", 1)}
    if (m, path, segs) in good or (m == "POST" and segs == 2 and path in PATHS.values()):
        m = "DELETE"
    return {"method": m, "path": path, "segs": segs}


def bent(p):
    """a path that is nearly one the server offers"""
    m, path = p.r.choice([("GET", "/ping"), ("GET", "/machines"), ("POST", "/machine"), ("GET", "/machine/{ik}"), ("GET", "/machine/{ik}"),
                          ("POST", "/generate_ksn/{ik}"), ("POST", "/generate_ksn/{ik}"), ("POST", "/encrypt_data/{ik}"), ("POST", "/encrypt_pin/{ik}"),
                          ("POST", "/generate_mac/{ik}")])
    k = p.r.randrange(14)
    how = [lambda: path + "/", lambda: path + "/", lambda: path + "//", lambda: "/" + path, lambda: path.replace("/", "//"),
           lambda: path + "/.", lambda: path + "/..", lambda: "/." + path, lambda: "/x/.." + path, lambda: path.upper().replace("{IK}", "{ik}"),
           lambda: path + p.some("x", ".json", "%20", ";a=1", ":", "%00", "-"), lambda: path[:2].upper() + path[2:],
           lambda: path.replace("{ik}", p.some("", "{ik}%2f", "%2f{ik}", "{ik}/{ik}", ".", "..", "{ik}%2e%2e/x", "%7Bik%7D")),
           lambda: p.some("/v1", "/api", "/dukpt", "/%2f", "/ ") .replace(" ", "%20") + path]
    return {"method": m, "path": "bent", "segs": 0, "bent": how[k]()}


WEIGHTS = {
    "serve": {"create": 5, "next": 4, "get": 3, "list": 2, "crypto": 14, "odd": 0, "ping": 0, "options": 0},
    "fail": {"create": 8, "next": 4, "get": 4, "list": 2, "crypto": 10, "odd": 1, "ping": 0, "options": 0},
    "front": {"create": 3, "next": 2, "get": 2, "list": 2, "crypto": 4, "odd": 5, "ping": 3, "options": 3},
}


def creation(p, bs, i):
    b = bs[i]
    fs = [{"n": "Algorithm", "v": ints(b["alg"].encode())}, {"n": "AlgorithmKey", "v": ints(b["akey"].encode())},
          {"n": "BaseDerivativeKey", "v": b["bdk"]}, {"n": "KeySerialNumber", "v": b["ksn"]}]
    fs = [dict(f, n=case(p, f["n"])) for f in fs if f["v"] or p.chance(0.5)]
    if p.chance(0.3):
        p.r.shuffle(fs)
    return {"method": "POST", "path": "machine", "base": i, "fields": fs, "alg": b["alg"], "akey": b["akey"]}


def crowd(p, n, steps):
    """hundreds of machines at a time, and bodies of up to many megabytes"""
    out = []
    for k in svcgen.crowd_sizes(p, n, steps):
        bs = [svcgen.base(p) for _ in range(k)]
        for b in bs:
            b["bdk"] = ints(svcgen.hexcase(p, p.raw(len(b["bdk"]) // 2)).encode())
        listing = {"method": "GET", "path": "machines", "segs": 1}
        reqs = []
        for i in range(k):
            reqs.append(common(p, creation(p, bs, i), "front" if p.chance(0.1) else ""))
            if i + 1 in (65, 101, 129, 257) or i + 1 == k:
                reqs.append(common(p, dict(listing), ""))
        for i in p.r.sample(range(k), k // 2):
            reqs.append(common(p, p.some({"method": "GET", "path": "machine", "segs": 2, "base": i},
                                         {"method": "POST", "path": "generate_ksn", "segs": 2, "base": i},
                                         creation(p, bs, i)), ""))
        reqs.append(common(p, dict(listing), ""))
        for q in reqs:
            q["list"] = False
        for m in (5000, 17000, 40000, 70000, 140000, 300000, 1200000, 5000000, 11000000):
            i = p.r.randrange(k)
            q = p.some(creation(p, bs, i), {"method": "POST", "path": "encrypt_data", "segs": 2, "base": i, "fields": [{"n": "data", "v": ints(p.ascii(9))}]},
                       {"method": "POST", "path": "generate_mac", "segs": 2, "base": i, "fields": [{"n": "data", "v": ints(p.ascii(9))}, {"n": "macType", "v": ints(b"cmac")}]})
            reqs.append(dict(common(p, q, ""), pad=m + p.r.randrange(m // 2), padfield=p.chance(0.5), list=False))
        out.append({"reqs": reqs})
    return out


def request(p, bs, o):
    """the request that asks for an operation of svcgen"""
    i, op = o.get("base", 0), o["op"]
    if op == "create":
        return creation(p, bs, i)
    if op == "list":
        return {"method": "GET", "path": "machines", "segs": 1}
    if op == "next":
        return {"method": "POST", "path": "generate_ksn", "segs": 2, "base": i}
    if op in ("get", "delete"):                       # there is no way to delete a machine
        return {"method": "GET", "path": "machine", "segs": 2, "base": i}
    if "text" in o and p.chance(0.5):
        o["text"] = ints(utf8(p, p.r.randrange(0, 20)))
    for f in ("pin", "pan", "fmt", "iv", "ctelse", "text"):
        if f in o and not svcgen.valid(bytes(o[f])):
            o[f] = [c for c in o[f] if c < 128]
    return ik_of(p, {"method": "POST", "path": PATHS[op], "segs": 2, "base": i, "fields": fields_of(p, o)}, bs, o)


def history(p, focus, steps, bs=None):
    bs = bs or svcgen.bases(p, p.r.randrange(1, 6))
    for b in bs:
        for f in ("bdk", "ksn"):
            if not svcgen.valid(bytes(b[f])):
                b[f] = [c for c in b[f] if c < 128]
    w = WEIGHTS[focus]
    names, ws = list(w), list(w.values())
    reqs = []
    for i in range(len(bs)):
        if p.chance(0.7):
            reqs.append(common(p, creation(p, bs, i), focus))
    while len(reqs) < steps:
        k = p.r.choices(names, ws)[0]
        i = p.r.randrange(len(bs))
        if k == "create":
            if focus == "fail" and p.chance(0.3):    # one that is not there yet
                b = svcgen.base(p)
                if all(svcgen.valid(bytes(b[f])) for f in ("bdk", "ksn")):
                    bs.append(b)
                    i = len(bs) - 1
            q = creation(p, bs, i)
        elif k == "next":
            q = ik_of(p, {"method": "POST", "path": "generate_ksn", "segs": 2, "base": i}, bs, {})
            if p.chance(0.3):
                q["fields"] = []
                q = common(p, q, "")
                q.pop("broken", None)
                q.pop("spoil", None)
                if "raw" in q:                       # its body is not read
                    q.pop("raw")
                reqs.append(q)
                continue
        elif k == "get":
            q = ik_of(p, {"method": "GET", "path": "machine", "segs": 2, "base": i}, bs, {})
        elif k == "list":
            q = {"method": "GET", "path": "machines", "segs": 1}
        elif k == "ping":
            q = {"method": "GET", "path": "ping", "segs": 1}
        elif k == "options":
            path, segs = p.r.choice([("ping", 1), ("machines", 1), ("machine", 2), ("", 1), ("nothing", 2), ("encrypt_pin", 2), ("machine", 1)])
            q = {"method": "OPTIONS", "path": path, "segs": segs, "base": i}
        elif k == "odd":
            q = odd(p) if p.chance(0.45) else bent(p)
            q["base"] = i
            if p.chance(0.5):
                q["fields"] = []
        else:
            o = {"base": i}
            if p.chance(0.08):
                o["mod"] = p.r.choice(svcgen.MODS)
            elif p.chance(0.06 if focus != "fail" else 0.15):
                o["ik"] = ints(p.r.choice(SAYINGS) if p.chance(0.3) else p.r.choice([b"unknown", p.bytes(16).hex().encode(), bytes(bs[i]["bdk"])]))
            ops = []
            svcgen.linked(p, ops, svcgen.crypto(p, o))
            for o in ops:
                reqs.append(common(p, request(p, bs, o), focus))
            continue
        reqs.append(common(p, q, focus))
    return {"reqs": reqs, "bs": bs}


def lookalikes(p, n, steps):
    """requests for every text that is nearly the key of a machine"""
    out = []
    for h in svcgen.lookalikes(p, n, steps):
        reqs = []
        for o in h["ops"]:
            q = request(p, h["bases"], o)
            if "mod" in o:
                q["mod"] = o["mod"]
            reqs.append(dict(common(p, q, ""), list=p.chance(0.1)))
        out.append({"reqs": reqs})
    return out


def histories(p, focus, n, steps):
    return [history(p, focus, p.r.randrange(steps // 2, steps + 1)) for _ in range(n)]


def processes(p, n, steps):
    """the same requests sent to started server processes"""
    out = []
    for i in range(n):
        h = history(p, p.some("serve", "fail", "front"), steps)
        for q in h["reqs"]:
            if q.pop("broken", None):                 # a body that breaks off gets no answer over a real connection
                q["raw"] = ints(b"{\"x\":")
            if q["method"] in ("TRACE", "get"):
                q["method"] = "DELETE"
        out.append(dict(h, proc=True, how=("flag", "env", "both")[i % 3]))
    return out


def together(p, n, steps):
    """some machines, then many requests at the same time that change nothing"""
    out = []
    for i in range(n):
        h = history(p, "serve", 12)
        bs = h.pop("bs")
        ts = []
        for i, q in enumerate(h["reqs"]):
            q.pop("broken", None)
        while len(ts) < steps:
            q = p.r.choice(history(p, p.some("serve", "fail", "front", "front"), 8, bs)["reqs"])
            if q["path"] in ("machine", "generate_ksn") and q["method"] == "POST" or q.pop("broken", False):
                continue
            if "bent" in q and q["method"] == "POST":
                continue
            q["list"] = False
            if p.chance(0.5):
                q["origin"] = ints(p.r.choice(ORIGINS))
            ts.append(q)
        out.append({"reqs": h["reqs"], "together": ts, "rounds": p.some(4, 10, 20)})
    return out


def many(p, n, rounds):
    """some machines, then a few requests that change nothing again and again"""
    out = together(p, n, 5)
    for o in out:
        o["rounds"] = rounds
    return out


def many_front(p, n, rounds):
    """requests of every kind that change nothing again and again"""
    out = together(p, n, 12)
    for o in out:
        o["rounds"] = rounds
        o["together"] += [dict(common(p, q, "front"), list=False) for q in ({"method": "GET", "path": "ping", "segs": 1}, {"method": "OPTIONS", "path": "machines", "segs": 1})]
    return out


def idle(p, n, steps):
    """requests with long pauses between them"""
    out = []
    for _ in range(n):
        h = history(p, p.some("serve", "serve", "fail"), steps)
        svcgen.pauses(p, h["reqs"])
        out.append(h)
    return out


def failures(p, n, steps):
    """requests while the store behind the service fails now and then"""
    out = []
    for _ in range(n):
        h = history(p, p.some("serve", "serve", "fail"), steps)
        for q in h["reqs"]:
            q["list"] = p.chance(0.7)
            if p.chance(0.25):
                q["fail"], q["after"], q["once"] = p.some("other", "other", "exists", "notfound", "wrapped"), p.some(0, 0, 0, 1), p.chance(0.5)
        svcgen.outage(p, h["reqs"])
        out.append(h)
    return out
