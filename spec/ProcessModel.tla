---------------------------- MODULE ProcessModel ----------------------------
(***************************************************************************)
(* What the goroutines of the server process do, for every configuration    *)
(* in a small space: the one that waits for a signal, the two listeners     *)
(* (one for administration), and main, which waits for the first of them to *)
(* report on an unbuffered channel and then shuts down.  Clients begin and   *)
(* finish requests meanwhile.  It refines the life that Process describes.   *)
(***************************************************************************)
EXTENDS Process, TLC

CONSTANTS Requests, MaxSignals

VARIABLES c,         \* the configuration
          main,      \* "start", "wait", "drain", "gone"
          sig,       \* signal goroutine: "wait", "send", "sent"
          web, adm,  \* listeners: "idle", "listen", "send", "sent"
          signals,   \* signals delivered and not yet taken (the channel holds one)
          given,     \* signals sent so far
          open,      \* requests begun
          done       \* requests that got an answer
vars == <<c, main, sig, web, adm, signals, given, open, done>>

Configs == [httpflag: {"a"}, httpenv: {"", "b"}, adminflag: {"c"}, adminenv: {"", "d", "b"},
            cert: {"", "good", "bad"}, key: {"", "good"}, logflag: {""}, logenv: {""},
            taken: {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"d">>}]

Init == /\ c \in Configs
        /\ main = "start" /\ sig = "wait" /\ web = "idle" /\ adm = "idle"
        /\ signals = 0 /\ given = 0 /\ open = {} /\ done = {}

AdminFree == AdminAddr(c) \notin TakenOf(c)
WebFree == MainAddr(c) \notin TakenOf(c) /\ MainAddr(c) # AdminAddr(c)
CertGood == Secure(c) => c.cert = "good" /\ c.key = "good"

(* main listens for administration before anything else *)
Start == /\ main = "start"
         /\ IF AdminFree THEN main' = "wait" /\ adm' = "listen" /\ web' = "begin"
            ELSE main' = "gone" /\ UNCHANGED <<adm, web>>
         /\ UNCHANGED <<c, sig, signals, given, open, done>>
Listen == /\ web = "begin" /\ main # "gone"
          /\ web' = IF WebFree /\ CertGood /\ main = "wait" THEN "listen" ELSE "send"
          /\ UNCHANGED <<c, main, sig, adm, signals, given, open, done>>
Signal == /\ given < MaxSignals /\ main # "gone" /\ main # "start"
          /\ given' = given + 1 /\ signals' = 1
          /\ UNCHANGED <<c, main, sig, web, adm, open, done>>
Take == /\ sig = "wait" /\ signals = 1 /\ main # "gone"
        /\ sig' = "send" /\ signals' = 0
        /\ UNCHANGED <<c, main, web, adm, given, open, done>>
(* the channel holds nothing: a report is one step of both ends, and main takes one only *)
Report == /\ main = "wait" /\ main' = "drain"
          /\ \/ sig = "send" /\ sig' = "sent" /\ UNCHANGED web
             \/ web = "send" /\ web' = "sent" /\ UNCHANGED sig
          /\ UNCHANGED <<c, adm, signals, given, open, done>>
(* shutting down closes the listener at once; its goroutine then has an error to report, to nobody *)
CloseWeb == /\ main = "drain" /\ web = "listen" /\ web' = "send"
            /\ UNCHANGED <<c, main, sig, adm, signals, given, open, done>>
Gone == /\ main = "drain" /\ web # "listen" /\ open = {}
        /\ main' = "gone" /\ adm' = "idle"
        /\ UNCHANGED <<c, sig, web, signals, given, open, done>>
Begin(r) == /\ web = "listen" /\ main \in {"wait", "drain"} /\ r \notin open \cup done
            /\ open' = open \cup {r} /\ UNCHANGED <<c, main, sig, web, adm, signals, given, done>>
Finish(r) == /\ r \in open /\ main # "gone"
             /\ open' = open \ {r} /\ done' = done \cup {r}
             /\ UNCHANGED <<c, main, sig, web, adm, signals, given>>

Next == Start \/ Listen \/ Signal \/ Take \/ Report \/ CloseWeb \/ Gone \/ \E r \in Requests : Begin(r) \/ Finish(r)
Fair == WF_vars(Start) /\ WF_vars(Listen) /\ WF_vars(Take) /\ WF_vars(Report) /\ WF_vars(CloseWeb) /\ WF_vars(Gone)
        /\ \A r \in Requests : WF_vars(Finish(r))
Spec == Init /\ [][Next]_vars /\ Fair

(* A request that was begun is never cut off *)
NoneLost == main = "gone" => open = {}
(* It serves exactly when it can, and never without TLS what was to be under it *)
Serves == web = "listen" => CanServe(c)
(* What Process says of the phases *)
Phase == IF main = "gone" THEN "ended" ELSE IF main = "drain" THEN "draining" ELSE "serving"
EndsForAReason == Phase \in {"draining", "ended"} => sig = "sent" \/ ~CanServe(c)
TakesNoNewOnes == [][main = "gone" => open' = open]_vars

Ends == (given > 0) ~> (main = "gone")
EndsAlone == ~CanServe(c) => <>(main = "gone")
StaysUp == (CanServe(c) /\ given = 0) => main # "gone"
=============================================================================
