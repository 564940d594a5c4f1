---------------------------- MODULE ServiceModel ----------------------------
(* The registry over symbolic keys, exhaustively. *)
EXTENDS ServiceCore

CONSTANTS Bdks, MaxKsn

(* symbolic cryptography: a key is the term that derives it *)
SymKnown(a) == a \in {"des", "aes"}
SymInitialKey(b) == IF b.bdk = 0 THEN [ok |-> FALSE, out |-> <<>>] ELSE [ok |-> TRUE, out |-> <<"ik", b.alg, b.bdk>>]
SymTransactionKey(alg, ik, ksn) == [ok |-> TRUE, out |-> <<"tk", alg, ik, ksn>>]
SymNextKsn(alg, ksn) == IF ksn >= MaxKsn THEN [ok |-> FALSE, out |-> 0] ELSE [ok |-> TRUE, out |-> ksn + 1]

Bases == {[alg |-> a, akey |-> "", bdk |-> b, ksn |-> k] : a \in {"des", "aes", "none"}, b \in Bdks, k \in {0, MaxKsn - 1}}
Iks == {<<"ik", a, b>> : a \in {"des", "aes"}, b \in Bdks}

VARIABLES reg,      \* the registry
          issued,   \* for every machine there is: the KSNs its clients were given, in order
          last      \* the last operation: [op, b: the base key given, ik, kind]
vars == <<reg, issued, last>>

NoBase == [alg |-> "", akey |-> "", bdk |-> 0, ksn |-> 0]
Init == reg = NoMachines /\ issued = <<>> /\ last = [op |-> "none", b |-> NoBase, ik |-> <<>>, kind |-> ""]

DoCreate(b) == LET r == Create(reg, b) IN
    /\ reg' = r.reg
    /\ issued' = IF r.kind = "ok" THEN (r.m.ik :> <<r.m.ksn>>) @@ issued ELSE issued
    /\ last' = [op |-> "create", b |-> b, ik |-> InitialKeyOf(b).out, kind |-> r.kind]
DoNext(ik) == LET r == Next_(reg, ik) IN
    /\ reg' = r.reg
    /\ issued' = IF r.kind = "ok" THEN [issued EXCEPT ![ik] = Append(@, r.m.ksn)] ELSE issued
    /\ last' = [op |-> "next", b |-> NoBase, ik |-> ik, kind |-> r.kind]
DoGet(ik) == LET r == Get(reg, ik) IN
    /\ reg' = r.reg /\ UNCHANGED issued
    /\ last' = [op |-> "get", b |-> NoBase, ik |-> ik, kind |-> r.kind]
DoDelete(ik) == LET r == Delete(reg, ik) IN
    /\ reg' = r.reg
    /\ issued' = [i \in DOMAIN issued \ {ik} |-> issued[i]]
    /\ last' = [op |-> "delete", b |-> NoBase, ik |-> ik, kind |-> r.kind]

(* encrypting, decrypting, generating a MAC *)
DoUse(ik) == LET r == Get(reg, ik) IN
    /\ reg' = r.reg /\ UNCHANGED issued
    /\ last' = [op |-> "use", b |-> NoBase, ik |-> ik, kind |-> r.kind]
DoList ==
    /\ UNCHANGED <<reg, issued>>
    /\ last' = [op |-> "list", b |-> NoBase, ik |-> <<>>, kind |-> "ok"]

(* all that matters for what may happen next *)
OnlyState == <<reg, issued>>

Next == \/ \E b \in Bases : DoCreate(b)
        \/ \E ik \in Iks : DoNext(ik) \/ DoGet(ik) \/ DoDelete(ik) \/ DoUse(ik)
        \/ DoList
Spec == Init /\ [][Next]_vars

(* the key of a machine is the one of its KSN *)
KeyMatches == \A i \in DOMAIN reg :
    /\ reg[i].ik = i
    /\ reg[i].tk = TransactionKeyOf(reg[i].alg, i, reg[i].ksn).out
    /\ i = InitialKeyOf([alg |-> reg[i].alg, akey |-> "", bdk |-> reg[i].bdk, ksn |-> reg[i].ksn0]).out
(* no KSN is given out twice in the life of a machine, and they come in order *)
NoRepeats == \A i \in DOMAIN issued : \A a, b \in 1 .. Len(issued[i]) : a < b => issued[i][a] < issued[i][b]
Current == \A i \in DOMAIN reg : i \in DOMAIN issued /\ reg[i].ksn = issued[i][Len(issued[i])]
(* an operation touches the machine it names and no other; one that fails touches nothing *)
Frame == [][ /\ \A i \in Iks : i # last'.ik => (i \in DOMAIN reg <=> i \in DOMAIN reg') /\ (i \in DOMAIN reg => reg'[i] = reg[i])
             /\ (last'.kind # "ok" \/ last'.op \in {"get", "use", "list"}) => reg' = reg ]_vars
(* a machine stays until it is deleted, and never goes back *)
Monotone == [][ \A i \in DOMAIN reg : \/ i \notin DOMAIN reg' /\ last'.op = "delete"
                                      \/ i \in DOMAIN reg' /\ reg'[i].ksn >= reg[i].ksn ]_vars
=============================================================================
