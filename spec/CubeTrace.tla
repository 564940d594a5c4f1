------------------------------ MODULE CubeTrace ------------------------------
(***************************************************************************)
(* Transaction keys of whole families of counters.  A line has             *)
(*   alg, ik, ksn   the algorithm, the initial key, and a KSN whose        *)
(*                  counter is the base                                    *)
(*   free           positions (1 = most significant) of counter bits below *)
(*                  all ones of the base, in order                         *)
(*   keys           the key for every choice of these bits, as a number    *)
(*                  counts them; <<>> where the call failed                *)
(* The first key is derived from the initial key; every other one is one    *)
(* step below the key of the counter without its lowest one, which is in    *)
(* the same line (TerminalModel, OneStep).                                  *)
(***************************************************************************)
EXTENDS TdesDukpt, AesDukpt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

Base(t) == CounterOf(t.ksn, IF t.alg = "des" THEN DesWidth ELSE AesWidth)
First(t) == IF t.alg = "des" THEN TransactionTdesKey(t.ik, t.ksn).out ELSE TransactionAesKey(t.ik, t.ksn).out
Bit(j, b) == (j \div 2 ^ b) % 2
(* the counter with number j, and j without its lowest one *)
Number(t, j) == LET n == Len(t.free)
                    c == Base(t)
                    on == {t.free[i] : i \in {i \in 1 .. n : Bit(j, n - i) = 1}}
                IN  TLCEval([p \in 1 .. Len(c) |-> IF p \in on THEN 1 ELSE c[p]])
Without(j) == LET RECURSIVE Low(_)
                  Low(b) == IF Bit(j, b) = 1 THEN b ELSE Low(b + 1)
              IN  j - 2 ^ Low(0)
Step(t, key, c) == IF t.alg = "des" THEN TdesStep(FullKsn(t.ksn), key, c) ELSE AesStep(t.ksn, key, c)

Right(t, j) == IF j = 0 THEN t.keys[1] = First(t)
               ELSE /\ Len(t.keys[j + 1]) = Len(t.ik)
                    /\ t.keys[Without(j) + 1] # <<>> => t.keys[j + 1] = Step(t, t.keys[Without(j) + 1], Number(t, j))

Verdict(t) == IF t.panics # 0 THEN "panic"
              ELSE IF \E j \in 0 .. Len(t.keys) - 1 : ~Right(t, j) THEN "key" ELSE "ok"
Where(t) == IF \A j \in 0 .. Len(t.keys) - 1 : Right(t, j) THEN <<>>
            ELSE Number(t, CHOOSE j \in 0 .. Len(t.keys) - 1 : ~Right(t, j) /\ \A i \in 0 .. j - 1 : Right(t, i))

VARIABLES l, done
Init == l \in 1 .. N /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ l' = l
        /\ LET t == Trace[l]
               v == Verdict(t)
           IN  v # "ok" => PrintT("BAD " \o ToString(<<l, v, t.alg, "counter", Where(t)>>))
Consumed == TLCGet("stats").distinct = 2 * N
=============================================================================
