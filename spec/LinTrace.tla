------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Recorded concurrent histories of the real service: is there an order of  *)
(* the operations that respects which ended before another began, and in    *)
(* which every recorded outcome is the one that Service gives?              *)
(*                                                                         *)
(* A line is a history: threads, a sequence of sequences of operations as   *)
(* in ServiceTrace, each with the times inv and res of its call and return. *)
(* TLC looks for the orders; a history for which it finds one is reported   *)
(* as DONE.  A history with calls that never came back (hang) has no order.  *)
(* An operation with q and a is a request with its response (Http).          *)
(***************************************************************************)
EXTENDS Http, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES h,       \* the history
          came,     \* how many operations of each thread are in the order so far
          reg      \* the registry after them
vars == <<h, came, reg>>

Threads == 1 .. Len(Trace[h].threads)
Ops(t) == Trace[h].threads[t]
Left(t) == came[t] < Len(Ops(t))
Op(t) == Ops(t)[came[t] + 1]

OpFits(r, o) == IF "q" \in DOMAIN o THEN ~o.panic /\ Right(r, o.q, o.a) ELSE Fits(r, o)
OpEffect(r, o) == IF "q" \in DOMAIN o THEN After(r, o.q) ELSE Effect(r, o).reg

Init == /\ h \in {i \in 1 .. N : ~Trace[i].hang}
        /\ came = [t \in 1 .. Len(Trace[h].threads) |-> 0]
        /\ reg = NoMachines

(* It changed nothing, wherever it came *)
Looks(o) == IF "q" \in DOMAIN o THEN Route(o.q) \notin {"create", "next"} \/ o.a.status # 200
            ELSE o.op \in {"get", "list", "find", "all"} \cup CryptoOps \/ o.kind # "ok"

(* nothing that is still to come ended before it began *)
MayComeNow(t) == Left(t) /\ \A u \in Threads : Left(u) => Op(u).res > Op(t).inv

Next ==
    LET now == {t \in Threads : MayComeNow(t) /\ OpFits(reg, Op(t))}
        become == [t \in now |-> OpEffect(reg, Op(t))]
        (* One that only looks, or failed, may be taken at once: that spoils nothing, and it only gets harder later. *)
        idle == {t \in now : Looks(Op(t))}
        ways == IF idle # {} THEN {CHOOSE t \in idle : TRUE} ELSE now
    IN  \E t \in ways :
            /\ came' = [came EXCEPT ![t] = @ + 1]
            /\ reg' = become[t]
            /\ UNCHANGED h
            /\ (\A u \in Threads : came'[u] = Len(Ops(u))) => PrintT("DONE " \o ToString(h))
Spec == Init /\ [][Next]_vars
=============================================================================
