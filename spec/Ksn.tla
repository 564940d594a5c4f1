-------------------------------- MODULE Ksn --------------------------------
(***************************************************************************)
(* Transaction counters and key serial numbers.  A counter is a sequence   *)
(* of bits, most significant first.  It is valid when at most a given      *)
(* number of its bits are one (X9.24-1: 10 of 21; X9.24-3: 16 of 32), so   *)
(* that a terminal needs a bounded number of derivations per key.          *)
(***************************************************************************)
EXTENDS Bytes

Ones(c) == LET RECURSIVE N(_)
               N(i) == IF i = 0 THEN 0 ELSE c[i] + N(i - 1)
           IN  N(Len(c))
IsZero(c) == \A i \in 1 .. Len(c) : c[i] = 0

(* position (1 = most significant) of the lowest bit that is one *)
LowestOne(c) == CHOOSE i \in 1 .. Len(c) : c[i] = 1 /\ \A j \in i + 1 .. Len(c) : c[j] = 0

(* c plus the bit at position p; the carry out of the top is lost *)
AddBit(c, p) ==
    LET RECURSIVE Carry(_)
        Carry(i) == IF i = 0 THEN 0 ELSE IF c[i] = 1 THEN Carry(i - 1) ELSE i
        t == Carry(p)          \* the bit that becomes one
    IN  TLCEval([i \in 1 .. Len(c) |-> IF i > p \/ i < t THEN c[i] ELSE IF i = t THEN 1 ELSE 0])
Overflows(c, p) == \A i \in 1 .. p : c[i] = 1
Inc(c) == AddBit(c, Len(c))

(* c <= d as numbers *)
LeqC(c, d) ==
    \/ c = d
    \/ \E i \in 1 .. Len(c) : c[i] < d[i] /\ \A j \in 1 .. i - 1 : c[j] = d[j]

IsValid(c, m) == Ones(c) <= m

(* The largest valid counter: the m most significant bits are one *)
MaxCounter(w, m) == [i \in 1 .. w |-> IF i <= m THEN 1 ELSE 0]
CanAdvance(c, m) == LeqC(c, MaxCounter(Len(c), m)) /\ c # MaxCounter(Len(c), m)

(* The smallest valid counter above c, where there is one.                 *)
(* KsnModel checks this walk against the sentence above, for every counter *)
(* of small widths.                                                        *)
RECURSIVE Settle(_, _)
Settle(c, m) == IF IsValid(c, m) THEN c ELSE Settle(AddBit(c, LowestOne(c)), m)
NextCounter(c, m) == Settle(Inc(c), m)

--------------------------------------------------------------------------
DesWidth == 21
DesOnes == 10
AesWidth == 32
AesOnes == 16
DesKsnLen == 10
AesKsnLen == 12

(* The counter of a key serial number: its w last bits *)
CounterOf(ksn, w) == Rightmost(ToBits(ksn), w)
WithCounter(ksn, c) == LET b == ToBits(ksn)
                       IN  FromBits(SubSeq(b, 1, Len(b) - Len(c)) \o c)

Err == [ok |-> FALSE, out |-> <<>>]
Ok(o) == [ok |-> TRUE, out |-> o]

NextKsn(ksn, w, m) ==
    LET c == CounterOf(ksn, w)
    IN  IF CanAdvance(c, m) THEN Ok(WithCounter(ksn, NextCounter(c, m))) ELSE Err

(* Short TDES key serial numbers stand for ones padded on the left with FF, *)
(* so all that is needed is room for the counter.                           *)
NextDesKsn(ksn) == IF Len(ksn) \in 4 .. DesKsnLen THEN NextKsn(ksn, DesWidth, DesOnes) ELSE Err
NextAesKsn(ksn) == IF Len(ksn) = AesKsnLen THEN NextKsn(ksn, AesWidth, AesOnes) ELSE Err

(* A KSN that a transaction may use: a counter from 1 on with few enough ones *)
ValidAesKsn(ksn) ==
    /\ Len(ksn) > 4
    /\ LET c == CounterOf(ksn, AesWidth) IN ~IsZero(c) /\ IsValid(c, AesOnes)
=============================================================================
