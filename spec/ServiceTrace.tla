---------------------------- MODULE ServiceTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real service, one operation per line, held    *)
(* against Service.  A line has                                            *)
(*   op, arguments, kind   what was called and how it ended                *)
(*   said                  the answer of a crypto operation                *)
(*   ms                    the machines that were handed out               *)
(*   list                  (if present) all machines, read afterwards      *)
(*   fail                  (if present) the store failed in this operation *)
(* The operations store, find, all and drop are those of the store below.  *)
(* Machines that callers hold are theirs: "peek" reads what one looks like  *)
(* now, "poke" overwrites it, and neither has to do with the registry.      *)
(* "create" may be given one of them: then h says which.                    *)
(***************************************************************************)
EXTENDS Service, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1 .. N : Trace[i].op = "start"}
Has(r, f) == f \in DOMAIN r

VARIABLES l, reg,
          held     \* what the machines that callers hold look like, in order of appearance
vars == <<l, reg, held>>

Init == \E i \in Starts : l = i /\ reg = NoMachines /\ held = <<>>

(* What the line should have been: the registry afterwards, the ending, and the machines handed out *)
Expect(t) ==
    \* what the store does not do changes nothing
    CASE Has(t, "fail") -> [reg |-> reg, kind |-> "failed", out |-> IF t.op = "create" THEN <<t.sub>> ELSE <<>>]
      [] t.op \in {"store", "find", "drop", "all"} -> LET r == Effect(reg, t) IN [reg |-> r.reg, kind |-> r.kind, out |-> <<>>]
      [] t.op = "create" -> LET r == Create(reg, t.b) IN
            [reg |-> r.reg, kind |-> r.kind, out |-> <<IF r.kind = "ok" THEN r.m ELSE t.sub>>]
      [] t.op = "createnil" -> [reg |-> reg, kind |-> "refused", out |-> <<>>]
      [] t.op = "get" -> LET r == Get(reg, t.ik) IN [reg |-> r.reg, kind |-> r.kind, out |-> IF r.kind = "ok" THEN <<r.m>> ELSE <<>>]
      [] t.op = "next" -> LET r == Next_(reg, t.ik) IN [reg |-> r.reg, kind |-> r.kind, out |-> IF r.kind = "ok" THEN <<r.m>> ELSE <<>>]
      [] t.op = "delete" -> LET r == Delete(reg, t.ik) IN [reg |-> r.reg, kind |-> r.kind, out |-> <<>>]
      [] t.op = "list" -> [reg |-> reg, kind |-> "ok", out |-> t.ms]
      [] OTHER -> [reg |-> reg, kind |-> "", out |-> <<>>]

Verdict(t, e) ==
    IF t.panic THEN "panic"
    ELSE IF Has(t, "fail") THEN IF t.kind = "ok" \/ t.said # <<>> THEN "failure"
                                ELSE IF t.op = "create" /\ t.kind # (IF t.fail = "wrapped" THEN "exists" ELSE t.fail) THEN "kind"
                                ELSE IF t.ms # e.out THEN "machine" ELSE "ok"
    ELSE IF t.op \in {"store", "find", "drop", "all"} THEN IF Fits(reg, t) THEN "ok" ELSE "store"
    ELSE IF t.op = "storenil" THEN IF t.kind # "ok" THEN "ok" ELSE "kind"
    ELSE IF t.op \in CryptoOps THEN IF CryptoRight(reg, t, t.kind, t.said) THEN "ok" ELSE "answer"
    ELSE IF t.op = "poke" THEN "ok"
    ELSE IF t.op = "peek" THEN IF t.ms = <<held[t.h]>> THEN "ok" ELSE "held"
    ELSE IF t.op = "createnil" THEN IF t.kind # "ok" THEN "ok" ELSE "kind"
    ELSE IF t.kind # e.kind THEN "kind"
    ELSE IF t.op = "list" THEN IF Listed(t.ms, reg) THEN "ok" ELSE "list"
    ELSE IF t.ms # e.out THEN "machine"
    ELSE "ok"

Move == LET t == Trace[l + 1]
            e == Expect(t)
        IN  /\ t.op # "start"
            /\ l' = l + 1
            /\ reg' = e.reg
            \* a machine that was held already has changed, any other is a new one
            /\ held' = CASE t.op = "poke" -> [held EXCEPT ![t.h] = t.ms[1]]
                        [] Has(t, "h") /\ t.op = "create" -> [held EXCEPT ![t.h] = e.out[1]]
                        [] t.op \in {"peek", "find", "all"} -> held
                        [] Len(t.ms) = Len(e.out) -> held \o e.out
                        [] OTHER -> held \o t.ms          \* a wrong line; the next ones are judged all the same
            /\ LET v == Verdict(t, e)
                   w == IF v = "ok" /\ Has(t, "list") /\ ~Listed(t.list, reg') THEN "list" ELSE v
               IN  w # "ok" => PrintT("BAD " \o ToString(<<l', w, t.op, e.kind>>))
Next == l < N /\ Move
(* the line determines the rest *)
Line == l
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").distinct = N
=============================================================================
