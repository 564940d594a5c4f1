---------------------------- MODULE UnifiedTrace ----------------------------
(***************************************************************************)
(* Recorded calls of the unified operations, held against Unified.  A line  *)
(* has op, p (the parameters, of which the operation uses some), res and    *)
(* again (the answers), and back (to undoing the first of them).            *)
(* In p, pin is the PIN of an encryption and the cipher text (hexadecimal)  *)
(* of a decryption.                                                        *)
(***************************************************************************)
EXTENDS Unified, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == atoi(IOEnv.CHUNK)

P(t) == IF t.op = "dp" THEN [t.p EXCEPT !.ct = t.p.pin] ELSE t.p

Right(t, a) ==
    IF t.op = "valid" THEN a.ok = (t.p.alg \in {"des", "aes"})
    ELSE UAllowed(t.op, P(t), a)

(* undoing an encryption: the library's answer, for the library's call *)
Back(t) == LET c == LibCall(t.op, t.p) IN IF t.op = "ep" THEN PinBack(c) ELSE DataBack(c)
LosesPin(t) == LET c == LibCall("ep", t.p)
               IN  c.op = "des.ep" /\ Family(c.fmt) \in {"iso0", "iso3"} /\ Len(c.pin) \in 10 .. 12

Verdict(t) ==
    IF t.res.panic THEN "panic"
    ELSE IF ~Right(t, t.res) THEN "answer"
    ELSE IF t.op # "valid" /\ Gap(LibCall(t.op, P(t)), t.res) THEN "gap"
    ELSE IF \E i \in 1 .. Len(t.again) : t.again[i].panic \/ ~Right(t, t.again[i]) THEN "unstable"
    ELSE IF "back" \in DOMAIN t /\ t.res.ok /\ (t.op = "ep" => ComesBack(LibCall("ep", t.p))) THEN
         IF ~t.back.panic /\ t.back.ok /\ t.back.out = Back(t).out THEN "ok"
         ELSE IF t.op = "ep" /\ LosesPin(t) /\ ~t.back.panic /\ ~t.back.ok THEN "gap"
         ELSE "back"
    ELSE "ok"

VARIABLES l, at
Init == l \in {i \in 0 .. N - 1 : i % Chunk = 0} /\ at = "start"
Next == /\ l < N
        /\ at # "end"
        /\ l' = l + 1
        /\ at' = IF l' % Chunk = 0 THEN "end" ELSE "in"
        /\ LET r == Verdict(Trace[l'])
           IN  r # "ok" => PrintT("BAD " \o ToString(<<l', r, Trace[l'].op>>))
Consumed == TLCGet("stats").distinct = N + ((N + Chunk - 1) \div Chunk)
=============================================================================
