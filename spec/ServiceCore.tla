---------------------------- MODULE ServiceCore ----------------------------
(***************************************************************************)
(* The service: a registry of machines, filed under their initial keys.    *)
(* A machine has a current KSN and the transaction key for it.             *)
(*                                                                         *)
(* The operations are given as functions of the registry: what it becomes  *)
(* and what the caller is told.  ServiceModel checks them exhaustively with *)
(* symbolic keys, ServiceLocks refines them, and the trace specifications   *)
(* (ServiceTrace, LinTrace, HttpTrace) hold recorded behaviours of the real *)
(* service against them with the real cryptography of Unified.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
    KnownAlgorithm(_),        \* is this the name of an algorithm?
    InitialKeyOf(_),          \* base key -> [ok, out]
    TransactionKeyOf(_, _, _),\* algorithm, initial key, KSN -> [ok, out]
    NextKsnOf(_, _)           \* algorithm, KSN -> [ok, out]

(* a base key: [alg, akey, bdk, ksn] *)
MachineOf(b, ik, tk) == [alg |-> b.alg, akey |-> b.akey, bdk |-> b.bdk, ksn0 |-> b.ksn,
                         ik |-> ik, ksn |-> b.ksn, tk |-> tk]

NoMachines == <<>>
Nobody == [alg |-> "", akey |-> "", bdk |-> <<>>, ksn0 |-> <<>>, ik |-> <<>>, ksn |-> <<>>, tk |-> <<>>]

Said(reg, kind, m) == [reg |-> reg, kind |-> kind, m |-> m]
Refused(reg, kind) == Said(reg, kind, Nobody)

Create(reg, b) ==
    IF ~KnownAlgorithm(b.alg) THEN Refused(reg, "other")
    ELSE LET i == InitialKeyOf(b) IN
         IF ~i.ok THEN Refused(reg, "other")
         ELSE LET t == TransactionKeyOf(b.alg, i.out, b.ksn) IN
              IF ~t.ok THEN Refused(reg, "other")
              ELSE IF i.out \in DOMAIN reg THEN Refused(reg, "exists")
              ELSE LET m == MachineOf(b, i.out, t.out) IN Said((i.out :> m) @@ reg, "ok", m)

Get(reg, ik) == IF ik \in DOMAIN reg THEN Said(reg, "ok", reg[ik]) ELSE Refused(reg, "notfound")

Next_(reg, ik) ==
    IF ik \notin DOMAIN reg THEN Refused(reg, "notfound")
    ELSE LET m == reg[ik]
             k == NextKsnOf(m.alg, m.ksn)
         IN  IF ~k.ok THEN Refused(reg, "other")
             ELSE LET t == TransactionKeyOf(m.alg, ik, k.out) IN
                  IF ~t.ok THEN Refused(reg, "other")
                  ELSE LET n == [m EXCEPT !.ksn = k.out, !.tk = t.out] IN Said([reg EXCEPT ![ik] = n], "ok", n)

(* Deleting a machine that is not there is not an error *)
Delete(reg, ik) == Said([i \in DOMAIN reg \ {ik} |-> reg[i]], "ok", Nobody)

(* What the store below the service offers: the same, by any key, with machines of any content *)
Store(reg, m) == IF m.ik \in DOMAIN reg THEN Refused(reg, "exists") ELSE Said((m.ik :> m) @@ reg, "ok", m)

Machines(reg) == {reg[i] : i \in DOMAIN reg}
=============================================================================
