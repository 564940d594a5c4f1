------------------------------ MODULE LibTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the real library, each with its answers, checked      *)
(* against Library.  A line is a call with                                  *)
(*   res    the first answer        [ok, out, panic, wrote]                 *)
(*   again  further answers to the very same call                          *)
(*   back   the answer to decrypting res.out (for *.ep, *.en)               *)
(*   heap   the caller's memory around every argument:                     *)
(*          <<before, after the call, after scribbling over the result>>   *)
(* The trace is cut into Chunks pieces that TLC's workers check in parallel.*)
(***************************************************************************)
EXTENDS Library, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == atoi(IOEnv.CHUNK)

Has(r, f) == f \in DOMAIN r

Verdict(c) ==
    IF c.res.wrote THEN "wrote"
    ELSE IF c.res.panic THEN "panic"
    ELSE IF \E i \in 1 .. Len(c.heap) : c.heap[i][2] # c.heap[i][1] THEN "modified"
    ELSE IF \E i \in 1 .. Len(c.heap) : c.heap[i][3] # c.heap[i][1] THEN "aliased"
    ELSE IF ~Allowed(c, c.res) THEN IF Gap(c, c.res) THEN "gap" ELSE "answer"
    ELSE IF \E i \in 1 .. Len(c.again) : c.again[i].panic \/ ~Allowed(c, c.again[i]) THEN "unstable"
    ELSE IF Has(c, "back") /\ c.res.ok /\ ComesBack(c) THEN
         LET e == IF c.op \in Randomized THEN PinBack(c) ELSE DataBack(c)
         IN  IF ~c.back.panic /\ c.back.ok /\ c.back.out = e.out THEN "ok"
             ELSE IF /\ c.op = "des.ep" /\ Family(c.fmt) \in {"iso0", "iso3"} /\ Len(c.pin) \in 10 .. 12
                     /\ ~c.back.panic /\ ~c.back.ok THEN "gap"
             ELSE "back"
    ELSE "ok"

Expected(c) == IF c.op \in Randomized THEN <<"accepted", Accepted(c)>> ELSE <<"answer", Answer(c)>>

VARIABLES l, at
Init == l \in {i \in 0 .. N - 1 : i % Chunk = 0} /\ at = "start"
Next == /\ l < N
        /\ at # "end"
        /\ l' = l + 1
        /\ at' = IF l' % Chunk = 0 THEN "end" ELSE "in"
        /\ LET r == Verdict(Trace[l'])
           IN  r # "ok" => PrintT("BAD " \o ToString(<<l', r, Trace[l'].op, Expected(Trace[l'])>>))

(* every line was looked at *)
Consumed == TLCGet("stats").distinct = N + ((N + Chunk - 1) \div Chunk)
=============================================================================
