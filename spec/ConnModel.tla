----------------------------- MODULE ConnModel -----------------------------
(***************************************************************************)
(* The server's end of a connection, with the timers that it sets (as       *)
(* net/http documents them): a read deadline for head and body, one for the  *)
(* next request, one for answers.  Time goes by in units of five seconds.    *)
(* Whatever the client does, and when, Connection finds it fine.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout,   \* 0: none
          MaxTime, MaxRequests, Lag

VARIABLES now, phase,
          read,      \* the read deadline, 0: none
          whole,     \* the one for the whole request
          write,     \* the write deadline
          asked, told,
          seen, ok   \* Connection's state, and whether all was fine
vars == <<now, phase, read, whole, write, asked, told, seen, ok>>

C == INSTANCE Connection WITH Patience <- 6, Keeping <- 12, Early <- 1, Late <- 2

Or(a, b) == IF a # 0 THEN a ELSE b
By(d) == IF d = 0 THEN 0 ELSE now + d
Open == phase # "closed"

Init == /\ now = 0 /\ phase = "new" /\ asked = 0 /\ told = FALSE
        /\ read = Or(ReadHeaderTimeout, ReadTimeout) /\ whole = ReadTimeout /\ write = 0
        /\ seen = C!Opened(FALSE) /\ ok = TRUE

Event(e) == ok' = (ok /\ C!Fine(seen, e)) /\ seen' = C!After(seen, e)
Say(w) == Event([what |-> w, t |-> now, right |-> FALSE, n |-> 3, k |-> 0])

(* the first bytes of a later request start its timers *)
Begun == IF phase = "idle"
         THEN read' = By(Or(ReadHeaderTimeout, ReadTimeout)) /\ whole' = By(ReadTimeout)
         ELSE UNCHANGED <<read, whole>>

Some == /\ phase \in {"new", "idle", "head"} /\ (phase # "head" => asked < MaxRequests)
        /\ phase' = "head" /\ asked' = IF phase = "head" THEN asked ELSE asked + 1
        /\ Begun /\ Say("some") /\ UNCHANGED <<now, write, told>>
(* one that reads a head after it was told to end leaves it at that *)
Leaves == /\ told /\ phase \in {"new", "idle", "head"} /\ asked < MaxRequests /\ (read # 0 => now < read)
          /\ \E w \in {"headed", "whole"} : Say(w)
          /\ phase' = "dying" /\ read' = now + Lag /\ asked' = asked + 1
          /\ UNCHANGED <<now, whole, write, told>>
Headed == /\ phase \in {"new", "idle", "head"} /\ (phase # "head" => asked < MaxRequests)
          /\ phase' = "body" /\ asked' = IF phase = "head" THEN asked ELSE asked + 1
          /\ IF phase = "idle" THEN read' = By(ReadTimeout) /\ whole' = By(ReadTimeout) ELSE read' = whole /\ UNCHANGED whole
          /\ write' = By(WriteTimeout)
          /\ Say("headed") /\ UNCHANGED <<now, told>>
Part == phase = "body" /\ Say("part") /\ UNCHANGED <<now, phase, read, whole, write, asked, told>>
Whole == /\ phase \in {"new", "idle", "head", "body"} /\ (phase \notin {"head", "body"} => asked < MaxRequests)
         /\ phase' = "work" /\ asked' = IF phase \in {"head", "body"} THEN asked ELSE asked + 1
         /\ write' = IF phase = "body" THEN write ELSE By(WriteTimeout)
         /\ read' = now + Lag /\ UNCHANGED whole             \* it answers soon
         /\ Say("whole") /\ UNCHANGED <<now, told>>
Flood == /\ phase \in {"new", "idle"} /\ asked < MaxRequests
         /\ phase' = "stuck" /\ asked' = asked + 1 /\ write' = By(WriteTimeout) /\ read' = 0 /\ UNCHANGED whole
         /\ Say("flood") /\ UNCHANGED <<now, told>>
Read == /\ phase \in {"stuck", "lost"} /\ seen.phase = "flood"
        /\ phase' = IF phase = "stuck" THEN "gives" ELSE "gave up"
        /\ read' = now + Lag /\ write' = 0
        /\ Say("read") /\ UNCHANGED <<now, whole, asked, told>>
Got == /\ phase \in {"gives", "gave up"}
       /\ Event([what |-> "got", t |-> now, k |-> IF phase = "gives" THEN 3 ELSE 1])
       /\ phase' = IF phase = "gives" THEN "idle" ELSE "dying"
       /\ read' = IF phase = "gives" THEN By(Or(IdleTimeout, ReadTimeout)) ELSE now + Lag
       /\ UNCHANGED <<now, whole, write, asked, told>>

(* The server *)
Answer == /\ phase = "work"
          /\ IF write # 0 /\ now > write
             THEN phase' = "closed" /\ Say("closed") /\ read' = 0
             ELSE /\ Event([what |-> "answer", t |-> now, right |-> TRUE])
                  /\ phase' = IF told THEN "dying" ELSE "idle"
                  /\ read' = IF told THEN now + Lag ELSE By(Or(IdleTimeout, ReadTimeout))
          /\ write' = 0 /\ UNCHANGED <<now, whole, asked, told>>
Passed(d) == d # 0 /\ now >= d
Cut == /\ phase \in {"new", "head", "idle"} /\ (Passed(read) \/ told)
       /\ phase' = "closed" /\ Say("closed") /\ UNCHANGED <<now, read, whole, write, asked, told>>
CutBody == /\ phase = "body" /\ Passed(read)
           /\ \/ phase' = "dying" /\ Say("answer")
              \/ phase' = "closed" /\ Say("closed")
           /\ read' = now + Lag /\ UNCHANGED <<now, whole, write, asked, told>>
Dies == /\ phase = "dying" /\ phase' = "closed" /\ Say("closed")
        /\ UNCHANGED <<now, read, whole, write, asked, told>>
GivesUp == /\ phase = "stuck" /\ Passed(write) /\ phase' = "lost"      \* the client does not look yet
           /\ UNCHANGED <<now, read, whole, write, asked, told, seen, ok>>
Told == /\ ~told /\ Open /\ phase \notin {"stuck", "lost", "gives", "gave up"}
        /\ told' = TRUE /\ Say("told") /\ UNCHANGED <<now, phase, read, whole, write, asked>>

(* No deadline passes by more than Lag.  The client reads what it asked for so soon that it gets all of it, or so late
   that it cannot. *)
Tick == /\ now < MaxTime
        /\ Open /\ phase \notin {"lost", "stuck"} => (read # 0 => now < read + Lag)
        /\ phase = "stuck" => (write # 0 => now < write + Lag)
        /\ phase \in {"stuck", "lost"} => now < seen.since + 12
        /\ now' = now + 1
        /\ ok' = (ok /\ C!Fine(seen, [what |-> "end", t |-> now + 1]))
        /\ UNCHANGED <<phase, read, whole, write, asked, told, seen>>

(* reading at about the time that the server gives up is left out *)
Clearly == phase = "lost" => now > seen.since + 6
ReadClearly == Clearly /\ (phase = "stuck" => now < seen.since + 5 \/ now > seen.since + 8) /\ Read

Next == Some \/ Leaves \/ Headed \/ Part \/ Whole \/ Flood \/ ReadClearly \/ Got \/ Answer \/ Cut \/ CutBody \/ Dies \/ GivesUp \/ Told \/ Tick
Spec == Init /\ [][Next]_vars

AllFine == ok
(* What Connection believes of a connection is so *)
Agrees == (phase = "closed") = (seen.phase = "closed")
(* A success is only ever said of a whole request *)
OnlyWhole == seen.right <= asked
=============================================================================
