-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* The HTTP API over the service: which request is which operation, and     *)
(* which responses are right.                                              *)
(*                                                                         *)
(* A request is                                                            *)
(*   method  "GET", ...                                                    *)
(*   path    the first segment, a string                                   *)
(*   segs    the number of segments                                        *)
(*   ik      the second segment (character codes; none: <<>>)               *)
(*   clean   the path has no empty segments (but perhaps the last), no "."   *)
(*           and no ".."                                                    *)
(*   good    the body is the JSON object expected (or none is expected)     *)
(*   fields  the texts in it: <<[n |-> lower case name, t |-> text], ...>>   *)
(*   origin  the Origin header (codes; none: <<>>)                          *)
(* A response is                                                           *)
(*   status, json (the body is one JSON object), text (the body, as codes,  *)
(*   when it is no JSON), ctype (the media type),                           *)
(*   fields: <<[n, k, t, ms], ...>> of the object with                     *)
(*   k one of "text", "null", "machine", "machines", "other";               *)
(*   acao, acam, acah, acac: the cross-origin headers (codes; none: <<>>)    *)
(***************************************************************************)
EXTENDS Service

WithKey == [generate_ksn |-> "next", encrypt_pin |-> "ep", decrypt_pin |-> "dp", generate_mac |-> "mac",
            encrypt_data |-> "en", decrypt_data |-> "de"]
ResultField == [ep |-> "encrypted", dp |-> "decrypted", mac |-> "generated", en |-> "encrypted", de |-> "data"]

Route(q) ==
    IF ~q.clean THEN "unclean"
    ELSE IF q.method = "OPTIONS" THEN "options"
    ELSE IF q.method = "GET" /\ q.path = "ping" /\ q.segs = 1 THEN "ping"
    ELSE IF q.method = "GET" /\ q.path = "machines" /\ q.segs = 1 THEN "list"
    ELSE IF q.method = "GET" /\ q.path = "machine" /\ q.segs = 2 /\ q.ik # <<>> THEN "get"
    ELSE IF q.method = "POST" /\ q.path = "machine" /\ q.segs = 1 THEN "create"
    ELSE IF q.method = "POST" /\ q.path \in DOMAIN WithKey /\ q.segs = 2 /\ q.ik # <<>> THEN WithKey[q.path]
    ELSE "none"

ReadsBody(r) == r \in {"create"} \cup CryptoOps

(* a field that is missing counts as empty *)
Arg(q, name) ==
    LET at == {i \in 1 .. Len(q.fields) : q.fields[i].n = name}
    IN  IF at = {} THEN <<>> ELSE q.fields[CHOOSE i \in at : TRUE].t

(* Names (algorithm, key type, action, MAC type) are strings in the specification *)
ActionName(t) == IF t = <<114, 101, 115, 112, 111, 110, 115, 101>> THEN "response" ELSE "request"
MacName(t) == IF t = <<99, 109, 97, 99>> THEN "cmac" ELSE IF t = <<104, 109, 97, 99>> THEN "hmac" ELSE "?"

CryptoCall(q, r) ==
    CASE r = "ep"  -> [op |-> r, ik |-> q.ik, pin |-> Arg(q, "pin"), pan |-> Arg(q, "pan"), fmt |-> Arg(q, "format")]
      [] r = "dp"  -> [op |-> r, ik |-> q.ik, ct |-> Arg(q, "encrypted"), pan |-> Arg(q, "pan"), fmt |-> Arg(q, "format")]
      [] r = "mac" -> [op |-> r, ik |-> q.ik, text |-> Arg(q, "data"), action |-> ActionName(Arg(q, "action")),
                       mactype |-> MacName(Arg(q, "mactype"))]
      [] r = "en"  -> [op |-> r, ik |-> q.ik, text |-> Arg(q, "data"), action |-> ActionName(Arg(q, "action")), iv |-> Arg(q, "iv")]
      [] r = "de"  -> [op |-> r, ik |-> q.ik, ct |-> Arg(q, "data"), action |-> ActionName(Arg(q, "action")), iv |-> Arg(q, "iv")]

(* the base key in a creation; its names come as strings, too *)
BaseOf(q) == [alg |-> q.alg, akey |-> q.akey, bdk |-> Arg(q, "basederivativekey"), ksn |-> Arg(q, "keyserialnumber")]

-----------------------------------------------------------------------------
(* Parts of a response *)
Field(a, name) ==
    LET at == {i \in 1 .. Len(a.fields) : a.fields[i].n = name}
    IN  IF at = {} THEN [n |-> name, k |-> "none", t |-> <<>>, ms |-> <<>>] ELSE a.fields[CHOOSE i \in at : TRUE]

NoError(a) == a.json /\ Field(a, "error").k \in {"null", "none"}
Success(a) == a.status = 200 /\ NoError(a)
NothingIn(f) == f.k = "null" \/ (f.k = "text" /\ f.t = <<>>) \/ (f.k = "machines" /\ f.ms = <<>>)
Failure(a) == /\ a.status >= 400 /\ a.json /\ Field(a, "error").k = "text" /\ Field(a, "error").t # <<>>
              /\ \A i \in 1 .. Len(a.fields) : a.fields[i].n # "error" => NothingIn(a.fields[i])
StatusFits(kind, s) == CASE kind = "notfound" -> s = 404
                         [] kind = "exists" -> s = 400
                         [] OTHER -> s >= 400 /\ s < 600 /\ s # 404

(* Only texts that are valid UTF-8 survive JSON *)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
    LET n == Len(s)
        More(k) == i + k <= n /\ \A j \in 1 .. k : s[i + j] \in 128 .. 191
    IN  IF i > n THEN TRUE
        ELSE IF s[i] < 128 THEN Utf8From(s, i + 1)
        ELSE IF s[i] \in 194 .. 223 THEN More(1) /\ Utf8From(s, i + 2)
        ELSE IF s[i] \in 224 .. 239 THEN /\ More(2)
                                        /\ (s[i] = 224 => s[i + 1] >= 160)
                                        /\ (s[i] = 237 => s[i + 1] < 160)
                                        /\ Utf8From(s, i + 3)
        ELSE IF s[i] \in 240 .. 244 THEN /\ More(3)
                                        /\ (s[i] = 240 => s[i + 1] >= 144)
                                        /\ (s[i] = 244 => s[i + 1] < 144)
                                        /\ Utf8From(s, i + 4)
        ELSE FALSE
Utf8(s) == Utf8From(s, 1)

(* What a crypto operation may have answered, given what can be read from the response *)
CryptoResponse(reg, c, a) ==
    IF c.ik \notin DOMAIN reg THEN Failure(a) /\ a.status = 404
    ELSE LET p == OnMachine(reg[c.ik], c) IN
         IF a.status = 200
         THEN /\ NoError(a)
              /\ LET f == Field(a, ResultField[c.op]) IN
                 /\ f.k = "text"
                 /\ IF AnswersText(c.op)
                    THEN LET e == UAnswer(c.op, p) IN e.ok /\ (Utf8(e.out) => f.t = e.out)
                    ELSE UAllowed(c.op, p, Ok(f.t))
         ELSE /\ Failure(a) /\ StatusFits("other", a.status)
              /\ UAllowed(c.op, p, Err)

-----------------------------------------------------------------------------
(* Cross-origin headers *)
Localhost == <<104, 116, 116, 112, 58, 47, 47, 108, 111, 99, 97, 108, 104, 111, 115, 116, 58>>
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Trusted(origin) == StartsWith(origin, Localhost) \/ StartsWith(origin, Https)
True_ == <<116, 114, 117, 101>>
CrossOrigin(q, a) ==
    IF Trusted(q.origin) THEN a.acao = q.origin /\ a.acam # <<>> /\ a.acah # <<>> /\ a.acac = True_
    ELSE a.acao = <<>> /\ a.acam = <<>> /\ a.acah = <<>> /\ a.acac = <<>>
(* which responses the rule is about *)
HasCrossOrigin(q) == Route(q) \notin {"none", "unclean"} /\ (ReadsBody(Route(q)) => q.good)
Pong == <<80, 79, 78, 71>>

-----------------------------------------------------------------------------
(* What the body is, it is called *)
TypeFits(q, a) == CASE Route(q) \in {"none", "unclean"} -> TRUE
                    [] Route(q) \in {"ping", "options"} -> a.ctype = "text/plain"
                    [] OTHER -> a.ctype = "application/json"

(* What the registry becomes, and whether the response is right *)
After(reg, q) ==
    LET r == Route(q) IN
    IF r = "create" /\ q.good THEN Create(reg, BaseOf(q)).reg
    ELSE IF r = "next" THEN Next_(reg, q.ik).reg
    ELSE reg

Right(reg, q, a) ==
    LET r == Route(q) IN
    CASE r = "none" -> a.status \in {404, 405}
      \* it may be sent to the path it means
      [] r = "unclean" -> a.status \in {301, 302, 303, 307, 308, 404, 405}
      [] r = "options" -> a.status = 200 /\ ~a.json /\ a.text = <<>>
      [] r = "ping" -> a.status = 200 /\ a.text = Pong
      [] ReadsBody(r) /\ ~q.good -> Failure(a)
      [] r = "list" -> LET f == Field(a, "machines")
                       IN  /\ Success(a) /\ f.k = "machines"
                           /\ Len(f.ms) = Cardinality(DOMAIN reg)
                           /\ {f.ms[i] : i \in 1 .. Len(f.ms)} = Machines(reg)
      [] r = "get" -> IF q.ik \in DOMAIN reg
                      THEN Success(a) /\ Field(a, "machine").k = "machine" /\ Field(a, "machine").ms = <<reg[q.ik]>>
                      ELSE Failure(a) /\ a.status = 404
      [] r = "create" -> LET s == Create(reg, BaseOf(q)) IN
                         IF s.kind = "ok"
                         THEN /\ Success(a)
                              /\ Field(a, "ik").k = "text" /\ Field(a, "ik").t = s.m.ik
                              /\ Field(a, "machine").k = "machine" /\ Field(a, "machine").ms = <<s.m>>
                         ELSE Failure(a) /\ StatusFits(s.kind, a.status)
      [] r = "next" -> LET s == Next_(reg, q.ik) IN
                       IF s.kind = "ok" THEN Success(a) /\ Field(a, "ksn").k = "text" /\ Field(a, "ksn").t = s.m.ksn
                       ELSE Failure(a) /\ StatusFits(s.kind, a.status)
      [] r \in CryptoOps -> CryptoResponse(reg, CryptoCall(q, r), a)
=============================================================================
