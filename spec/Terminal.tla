------------------------------ MODULE Terminal ------------------------------
(***************************************************************************)
(* The other end of DUKPT: the transaction originating device.  It never   *)
(* keeps the initial key.  It holds one future key per counter bit,        *)
(* uses the one for the lowest one of its counter, replaces the lower ones  *)
(* by keys derived from it, and erases it.                                 *)
(*                                                                         *)
(* The module is generic: Step(key, counter) is one derivation (TdesStep,  *)
(* AesStep, or a symbolic one), w the counter width, m the number of ones. *)
(***************************************************************************)
EXTENDS Ksn

NoKey == << <<>> >>
Only(w, p) == [i \in 1 .. w |-> IF i = p THEN 1 ELSE 0]
WithBit(c, p) == [c EXCEPT ![p] = 1]
(* c with the bits from p down cleared *)
Above(c, p) == [i \in 1 .. Len(c) |-> IF i < p THEN c[i] ELSE 0]

(* The host's way to the same keys: from the initial key, one step for     *)
(* every one of the counter                                                *)
HostKey(Step(_, _), ik, c) ==
    LET RECURSIVE Walk(_, _)
        Walk(key, i) == IF i > Len(c) THEN key
                        ELSE IF c[i] = 0 THEN Walk(key, i + 1)
                        ELSE Walk(Step(key, WithBit(Above(c, i), i)), i + 1)
    IN  Walk(ik, 1)

(* The device is a record [ctr, regs, dead]: the counter of its next        *)
(* transaction, its future keys, and whether it has used up its counters.   *)
Loaded(Step(_, _), ik, w) ==
    [ctr |-> Only(w, w), regs |-> TLCEval([p \in 1 .. w |-> Step(ik, Only(w, p))]), dead |-> FALSE]

TxKey(d) == d.regs[LowestOne(d.ctr)]

Transact(Step(_, _), d, m) ==
    LET c == d.ctr
        low == LowestOne(c)
        key == d.regs[low]
        more == Ones(c) < m
    IN  IF more
        THEN [ctr |-> Inc(c), dead |-> Overflows(c, Len(c)),
              regs |-> TLCEval([p \in 1 .. Len(c) |->
                         IF p > low THEN Step(key, WithBit(c, p))
                         ELSE IF p = low THEN NoKey ELSE d.regs[p]])]
        ELSE [ctr |-> AddBit(c, low), dead |-> Overflows(c, low),
              regs |-> [d.regs EXCEPT ![low] = NoKey]]

(* The future keys that a device holds when its next counter is c.          *)
(* TerminalModel checks that this is what Transact leads to.                *)
RegistersAt(Step(_, _), ik, c) ==
    LET low == LowestOne(c) IN
    TLCEval([p \in 1 .. Len(c) |->
        IF p = low THEN HostKey(Step, ik, c)
        ELSE IF p < low /\ c[p] = 0 THEN HostKey(Step, ik, WithBit(Above(c, p), p))
        ELSE NoKey])
DeviceAt(Step(_, _), ik, c) == [ctr |-> c, regs |-> RegistersAt(Step, ik, c), dead |-> FALSE]
=============================================================================
