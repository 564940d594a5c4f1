----------------------------- MODULE SweepTrace -----------------------------
(***************************************************************************)
(* Sweeps over runs of neighbouring counters.  A line has                  *)
(*   alg, ksn         the algorithm and the KSN with its counter zero      *)
(*   hi, lo, n        the counters hi * 2^16 + lo .. hi * 2^16 + lo + n - 1 *)
(*   nhi, nlo         the counter of the next KSN of each, or -1: refused   *)
(*   ids              the different KSNs these were in, counters zeroed     *)
(*   read             what the counters were read as, as runs <<hi, lo, n>> *)
(*   valid            (AES) whether each counts as valid                    *)
(*   panics           how many calls ended in a panic                       *)
(* Within a run the next of c is c + 1 if that is valid, and otherwise the  *)
(* next of c + 1 (KsnModel, Neighbours); the last is computed by itself.    *)
(***************************************************************************)
EXTENDS Ksn, Integers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Group == 4

OnesOf == TLCEval([b \in 0 .. 255 |-> Ones(ByteBits(b))])
OnesIn(x) == OnesOf[x \div 256] + OnesOf[x % 256]
Width(t) == IF t.alg = "des" THEN DesWidth ELSE AesWidth
Limit(t) == IF t.alg = "des" THEN DesOnes ELSE AesOnes
Pair(x) == <<x \div 256, x % 256>>

Own(t) == LET x == t.lo + t.n - 1
              k == WithCounter(t.ksn, Rightmost(ToBits(Pair(t.hi) \o Pair(x)), Width(t)))
              a == IF t.alg = "des" THEN NextDesKsn(k) ELSE NextAesKsn(k)
              c == FromBits(Zeros(32 - Width(t)) \o CounterOf(a.out, Width(t)))
          IN  IF a.ok THEN <<256 * c[1] + c[2], 256 * c[3] + c[4]>> ELSE <<-1, 0>>

(* the first counter of the run whose next is wrong, or n + 1 *)
FirstWrong(t) ==
    LET top == Limit(t) - OnesIn(t.hi)
        Right(i) == IF i = t.n THEN <<t.nhi[i], t.nlo[i]>> = Own(t)
                    ELSE IF OnesIn(t.lo + i) <= top THEN t.nhi[i] = t.hi /\ t.nlo[i] = t.lo + i
                    ELSE t.nhi[i] = t.nhi[i + 1] /\ t.nlo[i] = t.nlo[i + 1]
    IN  IF \A i \in 1 .. t.n : Right(i) THEN t.n + 1 ELSE CHOOSE i \in 1 .. t.n : ~Right(i) /\ \A j \in i + 1 .. t.n : Right(j)
ValidRight(t) == t.alg = "aes" => \A i \in 1 .. t.n :
    (t.valid[i] = 1) <=> (OnesIn(t.hi) + OnesIn(t.lo + i - 1) <= AesOnes /\ (t.hi # 0 \/ t.lo + i - 1 # 0))

Verdict(t) ==
    IF t.panics # 0 THEN "panic"
    ELSE IF FirstWrong(t) # t.n + 1 THEN "next"
    ELSE IF \E i \in 1 .. Len(t.ids) : t.ids[i] # t.ksn THEN "identity"
    ELSE IF t.read # <<<<t.hi, t.lo, t.n>>>> THEN "counter read"
    ELSE IF ~ValidRight(t) THEN "valid"
    ELSE "ok"

VARIABLES l, at
Init == l \in {i \in 0 .. N - 1 : i % Group = 0} /\ at = "start"
Next == /\ l < N
        /\ at # "end"
        /\ l' = l + 1
        /\ at' = IF l' % Group = 0 THEN "end" ELSE "in"
        /\ LET t == Trace[l']
               v == Verdict(t)
           IN  v # "ok" => PrintT("BAD " \o ToString(<<l', v, t.alg, "at", t.hi, t.lo + FirstWrong(t) - 1>>))
Consumed == TLCGet("stats").distinct = N + ((N + Group - 1) \div Group)
=============================================================================
