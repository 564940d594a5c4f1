------------------------------ MODULE KsnModel ------------------------------
(* NextCounter is what its comment says, for every counter of small widths, valid or not *)
EXTENDS Ksn
CONSTANTS MaxW
Val(c) == LET RECURSIVE V(_) V(i) == IF i = 0 THEN 0 ELSE 2 * V(i - 1) + c[i] IN V(Len(c))
VARIABLES c, m, w
Init == \E n \in 1 .. MaxW : /\ w = n
                             /\ m \in 1 .. n
                             /\ c \in [1 .. n -> {0, 1}]
Next == /\ CanAdvance(c, m)
        /\ c' = NextCounter(c, m)
        /\ UNCHANGED <<m, w>>
Spec == Init /\ [][Next]_<<c, m, w>>
Above(x) == {d \in [1 .. w -> {0, 1}] : Val(d) > Val(x) /\ IsValid(d, m)}
Smallest == LET A == Above(c) IN
    /\ CanAdvance(c, m) <=> A # {}
    /\ A # {} => /\ NextCounter(c, m) \in A
                 /\ \A d \in A : Val(NextCounter(c, m)) <= Val(d)
(* the law by which SweepTrace judges runs of neighbours *)
NextOf(x) == IF CanAdvance(x, m) THEN NextCounter(x, m) ELSE <<>>
Neighbours == (\E i \in 1 .. w : c[i] = 0) =>
    NextOf(c) = IF IsValid(Inc(c), m) THEN Inc(c) ELSE NextOf(Inc(c))
Order == LeqC(c, MaxCounter(w, m)) <=> Val(c) <= Val(MaxCounter(w, m))
=============================================================================
