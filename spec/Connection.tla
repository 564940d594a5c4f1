---------------------------- MODULE Connection ----------------------------
(***************************************************************************)
(* A client's connection to the server, in time: how long the server waits  *)
(* for a request that comes in slowly or not at all, how long for answers to *)
(* be taken, and how long it keeps a connection between requests.           *)
(*                                                                         *)
(* Events have a time t.  The client: "some" (a part of a request's head),   *)
(* "headed" (the head is complete, a body is still to come), "part" (of the  *)
(* body), "whole" (the request is complete), "flood" (n requests at once,    *)
(* no answer being read), "read" (from now on they are).  The server:        *)
(* "answer" (right: it is a success), "got" (k answers to a flood),          *)
(* "closed".  "told": the process was told to end.  "end": the watching ends.*)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Patience, \* how long a request may take to come in, or its answer to go out
          Keeping,  \* how long a connection is kept between requests
          Early,    \* how much earlier than that a connection may be closed,
          Late      \* and how much later; how long an answer may take, too

Opened(hello) == [phase |-> IF hello THEN "hello" ELSE "new", since |-> 0, risky |-> FALSE, told |-> FALSE, sent |-> 0, n |-> 0, right |-> 0]

Coming == {"hello", "new", "head", "body"}
(* When it has to be over with a phase, or closed *)
Until(s) == s.since + Late +
    (CASE s.phase \in Coming -> Patience
       [] s.phase = "idle" -> Keeping
       [] s.phase = "flood" -> 2 * Keeping          \* the client is to read in time
       [] OTHER -> 0)
Over(s, t) == t + Early >= s.since + (IF s.phase = "idle" THEN Keeping ELSE Patience)

(* May it happen so?  What happens after the connection was closed is of no account. *)
Fine(s, e) ==
    \/ s.phase = "closed"
    \/ /\ e.t <= Until(s)
       /\ CASE e.what = "answer" -> IF e.right THEN s.phase = "whole"
                                    ELSE (s.phase \in Coming /\ Over(s, e.t)) \/ (s.phase = "whole" /\ s.risky)
            [] e.what = "refused" -> s.told            \* nothing was there, or it did not speak TLS
            [] e.what = "got" -> IF s.risky THEN e.k < s.n ELSE e.k = s.n
            [] e.what = "closed" -> \/ s.phase \in Coming \cup {"idle"} /\ (Over(s, e.t) \/ s.risky \/ (s.told /\ s.phase # "body"))
                                    \/ s.phase = "whole" /\ s.risky
                                    \/ s.phase \in {"flood", "cut"}
            [] OTHER -> TRUE

After(s, e) ==
    IF s.phase = "closed" THEN s
    ELSE CASE e.what = "some" -> IF s.phase = "idle" THEN [s EXCEPT !.phase = "head", !.since = e.t]
                                 ELSE IF s.phase = "new" THEN [s EXCEPT !.phase = "head"] ELSE s
           [] e.what = "headed" -> IF s.phase = "idle" THEN [s EXCEPT !.phase = "body", !.since = e.t, !.sent = e.t, !.risky = s.told]
                                   ELSE IF s.phase \in {"new", "head"} THEN [s EXCEPT !.phase = "body", !.sent = e.t, !.risky = s.told] ELSE s
           [] e.what = "whole" -> IF s.phase \in Coming \cup {"idle"}
                                  \* it may have come too late
                                  THEN [s EXCEPT !.phase = "whole", !.since = e.t, !.sent = IF s.phase = "body" THEN @ ELSE e.t,
                                                 \* or just when the server began to end
                                                 !.risky = @ \/ Over(s, e.t) \/ (s.told /\ s.phase # "body")]
                                  ELSE s
           [] e.what = "flood" -> [s EXCEPT !.phase = "flood", !.since = e.t, !.n = e.n]
           [] e.what = "read" -> [s EXCEPT !.phase = "took", !.since = e.t, !.risky = Over(s, e.t)]
           [] e.what = "got" -> [s EXCEPT !.phase = IF s.risky THEN "cut" ELSE "idle", !.since = e.t]
           [] e.what = "answer" -> IF e.right THEN [s EXCEPT !.phase = "idle", !.since = e.t, !.risky = FALSE, !.right = @ + 1]
                                   ELSE [s EXCEPT !.phase = "cut", !.since = e.t]
           [] e.what = "told" -> \* a head that it was sent just before may still be unread
                              [s EXCEPT !.told = TRUE, !.risky = @ \/ (s.phase \in {"body", "whole"} /\ e.t < s.sent + Early)]
           [] e.what = "closed" -> [s EXCEPT !.phase = "closed"]
           [] OTHER -> s

RECURSIVE Through(_, _, _)
(* the state after the log's events from i on, or the place of one that may not be *)
Through(s, log, i) ==
    IF i > Len(log) THEN s
    ELSE IF ~Fine(s, log[i]) THEN [s EXCEPT !.phase = "bad", !.n = i]
    ELSE Through(After(s, log[i]), log, i + 1)
=============================================================================
