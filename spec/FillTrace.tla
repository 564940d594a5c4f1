----------------------------- MODULE FillTrace -----------------------------
(***************************************************************************)
(* Recorded runs of PIN encryptions, held against Fill.  A line has the     *)
(* calls, outs (the blocks that came out, one after the other) and of (the  *)
(* number of the call each is of, from 0).  A call through the service has  *)
(* bdk and ksn; its key is the one they derive.                            *)
(***************************************************************************)
EXTENDS Fill, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

WithKey(c) ==
    IF "bdk" \notin DOMAIN c THEN c
    ELSE [c EXCEPT !.key = IF c.op = "aes.ep" THEN TransactionAesKey(InitialAesKey(c.bdk, c.ksn).out, c.ksn).out
                           ELSE TransactionTdesKey(InitialTdesKey(c.bdk, c.ksn).out, c.ksn).out]

Verdict(t) ==
    LET calls == TLCEval([i \in 1 .. Len(t.calls) |-> WithKey(t.calls[i])])
        Of(i) == calls[t.of[i] + 1]
        fam == FamilyOf(calls[1])
    IN
    IF \E i \in 1 .. Len(t.outs) : ~Possible(Of(i), t.outs[i]) THEN "answer"
    ELSE IF fam \in Fixed
    THEN IF \E i, j \in 1 .. Len(t.outs) : t.of[i] = t.of[j] /\ t.outs[i] # t.outs[j] THEN "unstable" ELSE "ok"
    ELSE LET fs == TLCEval([i \in 1 .. Len(t.outs) |-> FillOf(Of(i), t.outs[i])])
             f == Flaw(fs, FillDigits(fam))
         IN  IF f = "none" THEN "ok" ELSE f


VARIABLES l, at
Init == l \in 0 .. N - 1 /\ at = "start"
Next == /\ at = "start"
        /\ l' = l + 1
        /\ at' = "end"
        /\ LET v == Verdict(Trace[l'])
           IN  v # "ok" => PrintT("BAD " \o ToString(<<l', v, Trace[l'].layer, FamilyOf(Trace[l'].calls[1])>>))
Consumed == TLCGet("stats").distinct = 2 * N
=============================================================================
