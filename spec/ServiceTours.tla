---------------------------- MODULE ServiceTours ----------------------------
(***************************************************************************)
(* The behaviours of ServiceModel, written out for replay on the real       *)
(* service: every step from every registry (ServiceTours.cfg), and every    *)
(* sequence of Depth operations from the empty one (ServicePaths.cfg).      *)
(* What is replayed is judged by ServiceTrace.                              *)
(***************************************************************************)
EXTENDS ServiceModel, Json

CONSTANTS Used,    \* <<algorithm, base key>>: the machines there may be; others are not asked for
          Bad,     \* also base keys that must be refused, and lists?
      Depth    \* how long sequences are

Asked(t) ==
    \/ Bad /\ t.op = "list"
    \/ t.op = "create" /\ (<<t.b.alg, t.b.bdk>> \in Used \/ (Bad /\ t.b.bdk = (IF t.b.alg = "none" THEN 1 ELSE 0) /\ t.b.ksn = 0))
    \/ t.op # "create" /\ t.ik # <<>> /\ <<t.ik[2], t.ik[3]>> \in Used

Label(t) == [op |-> t.op, kind |-> t.kind,
             alg |-> IF t.op = "list" THEN "" ELSE IF t.op = "create" THEN t.b.alg ELSE t.ik[2],
             bdk |-> IF t.op = "list" THEN 0 ELSE IF t.op = "create" THEN t.b.bdk ELSE t.ik[3],
             ksn |-> t.b.ksn]

(* every step from every registry *)
Place(r) == ToString({<<r[i].ik[2], r[i].ik[3], r[i].ksn0, r[i].ksn>> : i \in DOMAIN r})
OnlyRegistry == reg
Step == Asked(last') /\ PrintT("STEP " \o ToJson([from |-> Place(reg), to |-> Place(reg'), label |-> Label(last')]))

(* every sequence of operations; what came before is all that a state is *)
VARIABLE path
PathInit == Init /\ path = <<>>
PathNext == Next /\ Asked(last') /\ path' = Append(path, Label(last'))
PathSpec == PathInit /\ [][PathNext]_<<vars, path>>
OnlyPath == path
Whole == /\ Len(path) < Depth
         /\ Len(path') = Depth => PrintT("PATH " \o ToJson(path'))

StepSpec == PathInit /\ [][Next /\ UNCHANGED path]_<<vars, path>>

One == {<<"des", 1>>}
Other == {<<"aes", 1>>}
Three == {<<"des", 1>>, <<"des", 2>>, <<"aes", 1>>}
Four == Three \cup {<<"aes", 2>>}
Two == {<<"des", 1>>, <<"aes", 1>>}
=============================================================================
