----------------------------- MODULE ProcTrace -----------------------------
(* Recorded lives of server processes, held against Process. *)
EXTENDS Process, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1 .. N : Trace[i].ev = "start"}

VARIABLES l, c, s
vars == <<l, c, s>>

Init == \E i \in Starts : l = i /\ c = Trace[i].config /\ s = Begun(Trace[i].config)
Next == /\ l < N
        /\ LET e == Trace[l + 1] IN
            /\ e.ev # "start"
            /\ l' = l + 1
            /\ s' = After(c, s, e)
            /\ UNCHANGED c
            /\ ~Allowed(c, s, e) => PrintT("BAD " \o ToString(
                  IF e.ev = "reap"
                  THEN LET bad == {i \in 1 .. Len(e.conns) : Course(e.conns[i]).phase = "bad"}
                           i == CHOOSE i \in bad : TRUE
                           n == Course(e.conns[i]).n
                       IN <<l', e.ev, s.phase, Cardinality(bad), i, e.conns[i].log[n].what, e.conns[i].log[n].t>>
                  ELSE <<l', e.ev, s.phase, Cardinality(s.open)>>))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").distinct = N
=============================================================================
