----------------------------- MODULE SpinTrace -----------------------------
(***************************************************************************)
(* Recorded races of readers and writers on one machine of the real        *)
(* service.  A line has                                                    *)
(*   b, made, m: the base key, whether the machine could be created, and it*)
(*   writes  per writer, in its order, what advancing said: [kind, m]      *)
(*   reads   per reader, in its order, what it saw: [m, lo, hi], lo and hi *)
(*           being how many advances had succeeded before and had begun by *)
(*           the end of the look                                           *)
(* The specification's machine advances; at each of its states, one writer *)
(* is told it next, and the readers may see it, if it is neither over nor  *)
(* yet to come.  In the end everything that was recorded must have come.   *)
(***************************************************************************)
EXTENDS Service, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l,       \* the line
          k,       \* the advances so far
          reg,     \* the registry after them
          wpos,    \* how many of each writer's and
          rpos,    \* how many of each reader's records have come
          end      \* what was found in the end; "": not there yet
vars == <<l, k, reg, wpos, rpos, end>>

Made(t) == Create(NoMachines, t.b)

Sees(x, m, n) == x.m = m /\ x.lo <= n /\ n <= x.hi
Look(t, pos, m, n) == [r \in 1 .. Len(t.reads) |->
    IF pos[r] < Len(t.reads[r]) /\ Sees(t.reads[r][pos[r] + 1], m, n) THEN pos[r] + 1 ELSE pos[r]]

Bad(v) == PrintT("BAD " \o ToString(<<l, v, k>>))
Init == /\ l \in 1 .. N /\ k = 0
        /\ LET t == Trace[l]
               c == Made(t)
               wrong == t.made # (c.kind = "ok") \/ (t.made /\ t.m # c.m)
           IN  /\ reg = c.reg
               /\ end = IF wrong THEN "creation" ELSE IF t.made THEN "" ELSE "ok"
               /\ wpos = [w \in 1 .. Len(t.writes) |-> 0]
               /\ rpos = Look(t, [r \in 1 .. Len(t.reads) |-> 0], t.m, 0)
               /\ wrong => Bad("creation")

Told(t, m) == {w \in 1 .. Len(t.writes) : wpos[w] < Len(t.writes[w]) /\ t.writes[w][wpos[w] + 1] = [kind |-> "ok", m |-> m]}

Finish(v) == end' = v /\ UNCHANGED <<l, k, reg, wpos, rpos>> /\ (v # "ok" => Bad(v))

Next ==
    /\ end = ""
    /\ LET t == Trace[l]
           r == Next_(reg, t.m.ik)
           ws == IF r.kind = "ok" THEN Told(t, r.m) ELSE {}
       IN  IF ws # {}
           THEN LET w == CHOOSE x \in ws : TRUE IN
                /\ k' = k + 1 /\ reg' = r.reg /\ UNCHANGED <<l, end>>
                /\ wpos' = [wpos EXCEPT ![w] = @ + 1]
                /\ rpos' = Look(t, rpos, r.m, k + 1)
           ELSE IF \E w \in 1 .. Len(t.writes) : \E i \in wpos[w] + 1 .. Len(t.writes[w]) :
                       ~(r.kind # "ok" /\ t.writes[w][i].kind = "other")
                THEN Finish("an advance that is not the next one")
           ELSE IF \E x \in 1 .. Len(t.reads) : rpos[x] < Len(t.reads[x])
                THEN Finish("a reader saw what the machine was not then")
           ELSE Finish("ok")
Spec == Init /\ [][Next]_vars
=============================================================================
