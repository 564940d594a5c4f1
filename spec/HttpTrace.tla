----------------------------- MODULE HttpTrace -----------------------------
(***************************************************************************)
(* Recorded requests and responses of the real HTTP handler (or of a       *)
(* running server process), held against Http.  A line has                 *)
(*   ev "start", or "req" with q (the request), a (the response),           *)
(*   fail (if present: the store behind failed meanwhile),                  *)
(*   panic (the handler panicked, or the connection broke), and, if present,*)
(*   list: all machines as the service shows them afterwards.               *)
(***************************************************************************)
EXTENDS Http, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1 .. N : Trace[i].ev = "start"}

VARIABLES l, reg
vars == <<l, reg>>

Init == \E i \in Starts : l = i /\ reg = NoMachines

Verdict(t) ==
    IF t.panic THEN "panic"
    ELSE IF "fail" \in DOMAIN t THEN IF Failure(t.a) /\ TypeFits(t.q, t.a) THEN "ok" ELSE "failure"
    ELSE IF ~Right(reg, t.q, t.a) THEN "response"
    ELSE IF ~TypeFits(t.q, t.a) THEN "type"
    ELSE IF HasCrossOrigin(t.q) /\ ~CrossOrigin(t.q, t.a) THEN "origin"
    ELSE "ok"

Move == LET t == Trace[l + 1]
        IN  /\ t.ev = "req"
            /\ l' = l + 1
            /\ reg' = IF "fail" \in DOMAIN t THEN reg ELSE After(reg, t.q)
            /\ LET v == Verdict(t)
                   w == IF v = "ok" /\ "list" \in DOMAIN t /\ ~Listed(t.list, reg') THEN "effect" ELSE v
               IN  w # "ok" => PrintT("BAD " \o ToString(<<l', w, Route(t.q), t.q.path>>))
Next == l < N /\ Move
Spec == Init /\ [][Next]_vars
(* the line determines the rest *)
Line == l
Consumed == TLCGet("stats").distinct = N
=============================================================================
