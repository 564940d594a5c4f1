------------------------------ MODULE Process ------------------------------
(***************************************************************************)
(* The life of a server process: where and how it serves, and how it ends.  *)
(*                                                                         *)
(* A configuration has httpflag, httpenv, adminflag, adminenv (addresses,   *)
(* "": not given), cert, key ("": not given, "good", "bad", "missing"),     *)
(* logflag, logenv, and taken: addresses that something else listens at.    *)
(*                                                                         *)
(* States: phase "serving", "draining" (told to end), "ended"; the requests  *)
(* that are open; ProcessModel derives them from what the process's          *)
(* goroutines do.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* Connections with a course of their own, in milliseconds *)
C == INSTANCE Connection WITH Patience <- 30000, Keeping <- 60000, Early <- 5000, Late <- 15000

(* the environment's counts *)
Which(env, flag) == IF env # "" THEN env ELSE flag
MainAddr(c) == Which(c.httpenv, c.httpflag)
AdminAddr(c) == Which(c.adminenv, c.adminflag)
Secure(c) == c.cert # "" /\ c.key # ""
JsonLog(c) == Which(c.logenv, c.logflag) = "json"

TakenOf(c) == {c.taken[i] : i \in 1 .. Len(c.taken)}
CanServe(c) == /\ MainAddr(c) \notin TakenOf(c)
               /\ AdminAddr(c) \notin TakenOf(c)
               /\ MainAddr(c) # AdminAddr(c)
               /\ Secure(c) => c.cert = "good" /\ c.key = "good"

Begun(c) == [phase |-> IF CanServe(c) THEN "serving" ELSE "ended", open |-> {}, made |-> 0]

(* What answers at an address *)
At(c, s, a) ==
    IF s.phase = "serving" /\ a = MainAddr(c) THEN (IF Secure(c) THEN "https" ELSE "http")
    ELSE IF s.phase = "serving" /\ a = AdminAddr(c) THEN "admin"
    ELSE "none"

Course(k) == C!Through(C!Opened(k.hello), k.log, 1)

(* May it happen so? *)
Allowed(c, s, e) ==
    CASE e.ev = "probe" ->
            \* administration may go on while it drains
            \/ e.what = At(c, s, e.at)
            \/ s.phase = "draining" /\ e.at = AdminAddr(c) /\ e.what = "admin"
            \/ e.at \in TakenOf(c) /\ e.what = "other"
      [] e.ev = "version" -> s.phase = "serving" /\ e.at = AdminAddr(c) => e.right
      [] e.ev = "tls" -> s.phase = "serving" /\ Secure(c) => e.served = (e.max \in {"1.2", "1.3"})
      [] e.ev = "ask" -> s.phase = "serving" => e.answered
      [] e.ev = "idle" -> s.phase = "serving" => e.served
      [] e.ev = "begin" -> s.phase = "serving" => e.taken
      \* a request that was begun is answered, told to end or not
      [] e.ev = "finish" -> e.r \in s.open => e.answered
      [] e.ev = "closed" -> e.closed
      [] e.ev = "alive" -> e.alive = (s.phase = "serving" \/ (s.phase = "draining" /\ s.open # {})) \/ (s.phase = "draining" /\ s.open = {})
      \* it ends by itself, when told to and done, or when it cannot serve
      [] e.ev = "exit" -> /\ ~e.crash
                          /\ e.code # 0 - 2
                          /\ CanServe(c) => (s.phase = "draining" /\ s.open = {} /\ e.code = 0)
      \* every one of the connections went as it may
      [] e.ev = "reap" -> \A i \in 1 .. Len(e.conns) : Course(e.conns[i]).phase # "bad"
      [] e.ev = "machines" -> s.phase = "serving" => e.n = s.made
      [] e.ev = "log" -> e.json = JsonLog(c) /\ e.version /\ ~e.leak
      [] OTHER -> TRUE

After(c, s, e) ==
    CASE e.ev = "signal" /\ s.phase = "serving" -> [s EXCEPT !.phase = "draining"]
      [] e.ev = "begin" /\ s.phase = "serving" -> [s EXCEPT !.open = @ \cup {e.r}]
      [] e.ev \in {"finish", "drop"} -> [s EXCEPT !.open = @ \ {e.r}]
      [] e.ev = "exit" -> [s EXCEPT !.phase = "ended"]
      \* requests of theirs that were answered as successes made machines, and no others
      [] e.ev = "reap" -> [s EXCEPT !.made = @ + Cardinality({i \in 1 .. Len(e.conns) : e.conns[i].makes /\ Course(e.conns[i]).right > 0})]
      [] OTHER -> s
=============================================================================
