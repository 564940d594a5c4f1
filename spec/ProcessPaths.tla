---------------------------- MODULE ProcessPaths ----------------------------
(***************************************************************************)
(* The lives of server processes that Process allows, written out: every     *)
(* configuration of a small space, and every sequence of what clients and    *)
(* the keyboard do to a process until it is told to end and has nothing left  *)
(* to answer.  They are replayed with real processes.                        *)
(***************************************************************************)
EXTENDS Process, TLC, Json

CONSTANTS Depth, MaxRequests, MaxSignals

VARIABLES c, s, path
vars == <<c, s, path>>

Configs == [httpflag: {"a"}, httpenv: {"", "b"}, adminflag: {"c"}, adminenv: {"", "d", "b"},
            cert: {"", "good", "bad", "missing"}, key: {"", "good", "missing"}, logflag: {""}, logenv: {""},
            taken: {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"d">>}]
Plain == [httpflag |-> "a", httpenv |-> "", adminflag |-> "c", adminenv |-> "", cert |-> "", key |-> "", logflag |-> "", logenv |-> "", taken |-> <<>>]

Count(p, d) == Cardinality({i \in 1 .. Len(p) : p[i].do = d})

Init == /\ c \in Configs
        /\ PrintT("CONFIG " \o ToJson([config |-> c, serves |-> CanServe(c)]))
        /\ s = Begun(c) /\ path = <<>>

Do(l, e) == s' = After(c, s, e) /\ path' = Append(path, l)
Ask == s.phase = "serving" /\ \E d \in {"ask", "idle"} : Do([do |-> d, r |-> 0], [ev |-> d])
Begin == /\ s.phase = "serving" /\ Count(path, "begin") < MaxRequests
         /\ LET r == Count(path, "begin") + 1 IN Do([do |-> "begin", r |-> r], [ev |-> "begin", r |-> r])
End == \E r \in s.open : \E d \in {"finish", "drop"} : Do([do |-> d, r |-> r], [ev |-> d, r |-> r])
Signal == /\ Count(path, "signal") < MaxSignals /\ (s.phase = "serving" \/ s.open # {})
          /\ Do([do |-> "signal", r |-> 0], [ev |-> "signal"])

Whole == s.phase = "draining" /\ s.open = {}
Next == /\ c = Plain /\ Len(path) < Depth /\ ~Whole
        /\ Ask \/ Begin \/ End \/ Signal
        /\ (s'.phase = "draining" /\ s'.open = {}) => PrintT("LIFE " \o ToJson(path'))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
OnlyPath == <<c, path>>

(* There is a way to every end *)
Bounded == Len(path) <= Depth
=============================================================================
