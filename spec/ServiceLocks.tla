---------------------------- MODULE ServiceLocks ----------------------------
(***************************************************************************)
(* How the service keeps concurrent calls apart, step by step, and that it  *)
(* is linearizable.  Machines are objects in a heap that the repository     *)
(* points to; the repository's operations are atomic (they are wholly under *)
(* its own lock); the service's lock mtx (readers / one writer) guards the  *)
(* contents of the objects:                                                *)
(*    Get, List    RLock; find; copy field by field; RUnlock                *)
(*    Next         Lock; find; write the KSN; write the key; copy; Unlock   *)
(*    Create       store a new object          Delete   remove the pointer  *)
(*    Use          Get, and then work with the copy                         *)
(* Beside it runs the abstract registry of ServiceCore: each operation      *)
(* takes effect there in one step (its linearization point), and what it    *)
(* says there is what the call must return.                                 *)
(* With Locked = FALSE the service's lock is not taken, which must fail.     *)
(***************************************************************************)
EXTENDS ServiceCore

CONSTANTS Procs, Calls, MaxKsn, Locked

SymKnown(a) == a = "des"
SymInitialKey(b) == [ok |-> TRUE, out |-> b.bdk]
SymTransactionKey(alg, ik, ksn) == [ok |-> TRUE, out |-> <<ik, ksn>>]
SymNextKsn(alg, ksn) == IF ksn >= MaxKsn THEN [ok |-> FALSE, out |-> 0] ELSE [ok |-> TRUE, out |-> ksn + 1]
Iks == {1}
Base(ik) == [alg |-> "des", akey |-> "", bdk |-> ik, ksn |-> 0]
None == [ksn |-> 0, tk |-> <<>>]
Of(m) == [ksn |-> m.ksn, tk |-> m.tk]

VARIABLES heap,     \* objects: [ksn, tk]
          repo,     \* initial key -> object
          mtx,      \* [w: who writes, or none; r: who reads]
          pc, obj,  \* where a process is; the object it works on
          got,      \* what it has copied so far, and how its call ends
          left,     \* calls it may still make
          areg, said\* the abstract registry; what the running call says there
vars == <<heap, repo, mtx, pc, obj, got, left, areg, said>>
Quiet == UNCHANGED <<areg, said>>

Nobody_ == "nobody"
Init == /\ heap = <<>> /\ repo = <<>> /\ mtx = [w |-> Nobody_, r |-> {}]
        /\ pc = [p \in Procs |-> "idle"] /\ obj = [p \in Procs |-> 0]
        /\ got = [p \in Procs |-> [kind |-> "", m |-> None]] /\ left = [p \in Procs |-> Calls]
        /\ areg = NoMachines /\ said = [p \in Procs |-> [kind |-> "", m |-> None]]

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Tell(p, r) == said' = [said EXCEPT ![p] = [kind |-> r.kind, m |-> IF r.kind = "ok" /\ pc[p] # "delete" THEN Of(r.m) ELSE None]]
Ends(p, kind, m) == got' = [got EXCEPT ![p] = [kind |-> kind, m |-> m]]

Start(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ \E l \in {"create", "get", "next", "delete"} : Goto(p, l)
            /\ obj' = [obj EXCEPT ![p] = 0] /\ got' = [got EXCEPT ![p] = [kind |-> "", m |-> None]]
            /\ UNCHANGED <<heap, repo, mtx>> /\ Quiet
Done(p) == pc[p] = "done" /\ Goto(p, "idle") /\ UNCHANGED <<heap, repo, mtx, obj, got, left>> /\ Quiet

(* the initial key of all machines here is 1 *)
K == 1
Create_(p) == /\ pc[p] = "create"
              /\ LET r == Create(areg, Base(K)) IN areg' = r.reg /\ Tell(p, r)
              /\ IF K \in DOMAIN repo
                 THEN Ends(p, "exists", None) /\ UNCHANGED <<heap, repo>>
                 ELSE LET m == [ksn |-> 0, tk |-> <<K, 0>>] IN
                      /\ heap' = Append(heap, m)
                      /\ repo' = (K :> Len(heap')) @@ repo
                      /\ Ends(p, "ok", m)
              /\ Goto(p, "done") /\ UNCHANGED <<mtx, obj, left>>
Delete_(p) == /\ pc[p] = "delete"
              /\ LET r == Delete(areg, K) IN areg' = r.reg /\ Tell(p, r)
              /\ repo' = [i \in DOMAIN repo \ {K} |-> repo[i]]
              /\ Ends(p, "ok", None) /\ Goto(p, "done") /\ UNCHANGED <<heap, mtx, obj, left>>

Free(p, write) == \/ ~Locked
                  \/ mtx.w = Nobody_ /\ (write => mtx.r = {})
Acquire(p, write) == mtx' = IF ~Locked THEN mtx ELSE IF write THEN [mtx EXCEPT !.w = p] ELSE [mtx EXCEPT !.r = @ \cup {p}]
Release(p) == mtx' = [w |-> IF mtx.w = p THEN Nobody_ ELSE mtx.w, r |-> mtx.r \ {p}]

(* reading *)
Get1(p) == /\ pc[p] = "get" /\ Free(p, FALSE) /\ Acquire(p, FALSE)
           /\ Goto(p, "get find") /\ UNCHANGED <<heap, repo, obj, got, left>> /\ Quiet
Get2(p) == /\ pc[p] = "get find"
           /\ LET r == Get(areg, K) IN areg' = r.reg /\ Tell(p, r)
           /\ IF K \in DOMAIN repo
              THEN obj' = [obj EXCEPT ![p] = repo[K]] /\ Goto(p, "get ksn") /\ UNCHANGED <<got, mtx>>
              ELSE Ends(p, "notfound", None) /\ Release(p) /\ Goto(p, "done") /\ UNCHANGED obj
           /\ UNCHANGED <<heap, repo, left>>
Get3(p) == /\ pc[p] = "get ksn"
           /\ Ends(p, "ok", [ksn |-> heap[obj[p]].ksn, tk |-> <<>>])
           /\ Goto(p, "get tk") /\ UNCHANGED <<heap, repo, mtx, obj, left>> /\ Quiet
Get4(p) == /\ pc[p] = "get tk"
           /\ Ends(p, "ok", [ksn |-> got[p].m.ksn, tk |-> heap[obj[p]].tk])
           /\ Release(p) /\ Goto(p, "done") /\ UNCHANGED <<heap, repo, obj, left>> /\ Quiet

(* advancing *)
Next1(p) == /\ pc[p] = "next" /\ Free(p, TRUE) /\ Acquire(p, TRUE)
            /\ Goto(p, "next find") /\ UNCHANGED <<heap, repo, obj, got, left>> /\ Quiet
Next2(p) == /\ pc[p] = "next find"
            /\ LET r == Next_(areg, K) IN areg' = r.reg /\ Tell(p, r)
            /\ IF K \notin DOMAIN repo
               THEN Ends(p, "notfound", None) /\ Release(p) /\ Goto(p, "done") /\ UNCHANGED obj
               ELSE LET k == NextKsnOf("des", heap[repo[K]].ksn) IN
                    IF ~k.ok THEN Ends(p, "other", None) /\ Release(p) /\ Goto(p, "done") /\ UNCHANGED obj
                    ELSE /\ obj' = [obj EXCEPT ![p] = repo[K]]
                         /\ Ends(p, "ok", [ksn |-> k.out, tk |-> <<K, k.out>>])
                         /\ Goto(p, "next ksn") /\ UNCHANGED mtx
            /\ UNCHANGED <<heap, repo, left>>
Next3(p) == /\ pc[p] = "next ksn"
            /\ heap' = [heap EXCEPT ![obj[p]].ksn = got[p].m.ksn]
            /\ Goto(p, "next tk") /\ UNCHANGED <<repo, mtx, obj, got, left>> /\ Quiet
Next4(p) == /\ pc[p] = "next tk"
            /\ heap' = [heap EXCEPT ![obj[p]].tk = got[p].m.tk]
            /\ Goto(p, "next copy") /\ UNCHANGED <<repo, mtx, obj, got, left>> /\ Quiet
Next5(p) == /\ pc[p] = "next copy"
            /\ Ends(p, "ok", heap[obj[p]]) /\ Release(p) /\ Goto(p, "done")
            /\ UNCHANGED <<heap, repo, obj, left>> /\ Quiet

Step(p) == Start(p) \/ Done(p) \/ Create_(p) \/ Delete_(p) \/ Get1(p) \/ Get2(p) \/ Get3(p) \/ Get4(p)
           \/ Next1(p) \/ Next2(p) \/ Next3(p) \/ Next4(p) \/ Next5(p)
Next == \E p \in Procs : Step(p)
Fairness == \A p \in Procs : WF_vars(Step(p))
Spec == Init /\ [][Next]_vars /\ Fairness

(* what a call returns is what it says in the abstract registry *)
Linearizable == \A p \in Procs : pc[p] = "done" => got[p] = said[p]
(* when nobody is at work, the objects are what the abstract registry has *)
Refines == (\A p \in Procs : pc[p] \in {"idle", "done"}) =>
               /\ DOMAIN repo = DOMAIN areg
               /\ \A i \in DOMAIN repo : heap[repo[i]] = Of(areg[i])
LocksHeld == /\ mtx.w # Nobody_ => mtx.r = {}
             /\ \A p \in Procs : pc[p] \in {"idle", "done"} => mtx.w # p /\ p \notin mtx.r
(* no call waits forever *)
CallsEnd == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
Symmetric == Permutations(Procs)
=============================================================================
