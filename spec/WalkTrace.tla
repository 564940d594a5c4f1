------------------------------ MODULE WalkTrace ------------------------------
(***************************************************************************)
(* Recorded walks of the real library along the key serial numbers: the     *)
(* next KSN again and again, with the key the host derives for each.  The   *)
(* specification runs the device next to it.                               *)
(***************************************************************************)
EXTENDS TdesDukpt, AesDukpt, Terminal, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1 .. N : Trace[i].ev = "start"}

VARIABLES l,     \* lines consumed
          s,     \* the start line of this walk
          dev    \* the device
vars == <<l, s, dev>>

Width(st) == IF st.alg = "des" THEN DesWidth ELSE AesWidth
Limit(st) == IF st.alg = "des" THEN DesOnes ELSE AesOnes
StepOf(st, key, c) == IF st.alg = "des" THEN TdesStep(FullKsn(st.ksn), key, c) ELSE AesStep(st.ksn, key, c)

Boot(st) ==
    LET c == CounterOf(st.ksn, Width(st))
        Sp(k, x) == StepOf(st, k, x)
    IN  IF ~CanAdvance(c, Limit(st)) THEN [ctr |-> c, regs |-> <<>>, dead |-> TRUE]
        ELSE LET n == NextCounter(c, Limit(st))
             IN  IF st.keys THEN DeviceAt(Sp, st.ik, n) ELSE [ctr |-> n, regs |-> <<>>, dead |-> FALSE]

Init == \E i \in Starts : l = i /\ s = Trace[i] /\ dev = Boot(Trace[i])

LineOK(t) ==
    IF t.panic THEN "panic"
    ELSE IF dev.dead THEN IF t.ok THEN "not exhausted" ELSE "ok"
    ELSE IF ~t.ok THEN "refused"
    ELSE IF t.ksn # WithCounter(s.ksn, dev.ctr) THEN "ksn"
    ELSE IF s.keys /\ t.key # TxKey(dev) THEN "key"
    ELSE "ok"

Move ==
    IF dev.dead THEN dev
    ELSE IF s.keys THEN LET Sp(k, x) == StepOf(s, k, x) IN Transact(Sp, dev, Limit(s))
    ELSE [ctr |-> IF CanAdvance(dev.ctr, Limit(s)) THEN NextCounter(dev.ctr, Limit(s)) ELSE dev.ctr,
          regs |-> <<>>, dead |-> ~CanAdvance(dev.ctr, Limit(s))]

Next == /\ l < N
        /\ Trace[l + 1].ev = "next"
        /\ l' = l + 1
        /\ s' = s
        /\ dev' = Move
        /\ LET r == LineOK(Trace[l'])
           IN  r # "ok" => PrintT("BAD " \o ToString(<<l', r, s.alg, IF dev.dead THEN <<>> ELSE WithCounter(s.ksn, dev.ctr)>>))
Spec == Init /\ [][Next]_vars
(* the line determines the rest *)
Line == l
Consumed == TLCGet("stats").distinct = N
=============================================================================
