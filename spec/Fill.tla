-------------------------------- MODULE Fill --------------------------------
(***************************************************************************)
(* The random fill of PIN blocks: where it is, which digits it is made of,  *)
(* and what a long run of fills has to look like.                          *)
(***************************************************************************)
EXTENDS Library, SequencesExt

Fixed == {"iso0", "iso2"}
Digit10 == 0 .. 9
Letters == 10 .. 15
Digit16 == 0 .. 15

FamilyOf(c) == IF c.op = "aes.ep" THEN "iso4" ELSE Family(c.fmt)
FillDigits(fam) == CASE fam \in {"iso1", "visa2"} -> Digit10
                     [] fam \in {"iso3", "visa3"} -> Letters
                     [] fam \in {"eci2", "eci3", "iso4"} -> Digit16

(* the fill in a block that call c may have been answered with *)
FillOf(c, out) ==
    IF c.op = "aes.ep" THEN SubSeq(Nibbles(AesPinField(c.key, c.ksn, out, c.pan, c.type)), 17, 32)
    ELSE LET fam == Family(c.fmt)
             d == Unmix(fam, TdesDec(TdesPinKey(c.key), out), c.pan)
             n == CarriedLen(fam, Len(c.pin))
         IN CASE fam \in {"iso1", "iso3"} -> SubSeq(d, 3 + n, 16)
              [] fam = "eci2" -> SubSeq(d, 5, 16)
              [] fam \in {"eci3", "visa2"} -> SubSeq(d, 8, 16)
              [] fam = "visa3" -> <<d[16]>>
              [] OTHER -> <<>>

(***************************************************************************)
(* A run of fills fs, one after the other, of digits in S.  The numbers are *)
(* such that random fills miss them less than once in 10^9 runs.            *)
(***************************************************************************)
Count(fs, p, v) == Cardinality({i \in 1 .. Len(fs) : fs[i][p] = v})

(* every place takes every value, about equally often: 120 are to be expected *)
Spread(fs, S) ==
    LET k == Cardinality(S) IN
    Len(fs) >= 120 * k => \A p \in 1 .. Len(fs[1]), v \in S : LET n == Count(fs, p, v) IN 3 * k * n >= Len(fs) /\ k * n <= 3 * Len(fs)

(* no place tells another one, nor what comes there next: most pairs of values occur *)
Loose(fs, S) ==
    LET k == Cardinality(S)
        P == Len(fs[1])
        Most(pairs) == 2 * Cardinality(pairs) >= k * k
    IN  Len(fs) >= 120 * k =>
        /\ \A p, q \in 1 .. P : p < q => Most({<<fs[i][p], fs[i][q]>> : i \in 1 .. Len(fs)})
        /\ \A p \in 1 .. P : Most({<<fs[i][p], fs[i + 1][p]>> : i \in 1 .. Len(fs) - 1})

(***************************************************************************)
(* How far the numbers of times that the values of a sequence (0 .. m - 1)  *)
(* come are from being the same: chi-square, rounded down.  The bounds are   *)
(* such that random fills pass them less than once in 10^11 runs; a digit    *)
(* made from a nibble by its remainder is beyond them, one made from a byte  *)
(* (two values in a hundred more often than others) is about even.           *)
(***************************************************************************)
Tally(xs, m) == FoldLeft(LAMBDA t, x : [t EXCEPT ![x + 1] = @ + 1], [v \in 1 .. m |-> 0], xs)
Uneven(xs, m, bound) ==
    LET N == Len(xs)
        t == TLCEval(Tally(xs, m))
        Off(v) == LET d == m * t[v] - N IN IF d < 0 THEN 0 - d ELSE d      \* a share of N off by d / (m N)
        \* (d * d) / (m * N) in parts that fit
        Part(d) == IF d > 40000 THEN 1000000 ELSE (d * d) \div N
        sum == FoldLeft(LAMBDA s, v : IF s > 1000000 THEN s ELSE s + Part(Off(v)), 0, [v \in 1 .. m |-> v])
    IN  sum > bound * m

ValueIn(S, d) == d - (CHOOSE x \in S : \A y \in S : x <= y)
DigitsOf(fs, S) == LET P == Len(fs[1]) IN [j \in 1 .. Len(fs) * P |-> ValueIn(S, fs[((j - 1) \div P) + 1][((j - 1) % P) + 1])]
Adjoining(fs, S) ==
    LET P == Len(fs[1]) - 1
        k == Cardinality(S)
    IN [j \in 1 .. Len(fs) * P |-> LET f == fs[((j - 1) \div P) + 1]
                                       p == ((j - 1) % P) + 1
                                   IN k * ValueIn(S, f[p]) + ValueIn(S, f[p + 1])]
Following(fs, S) ==
    LET P == Len(fs[1])
        k == Cardinality(S)
    IN [j \in 1 .. (Len(fs) - 1) * P |-> LET i == ((j - 1) \div P) + 1
                                             p == ((j - 1) % P) + 1
                                         IN k * ValueIn(S, fs[i][p]) + ValueIn(S, fs[i + 1][p])]
Evenly(fs, S) == Len(fs) >= 120 * Cardinality(S) => ~Uneven(DigitsOf(fs, S), Cardinality(S), CASE Cardinality(S) = 6 -> 65 [] Cardinality(S) = 10 -> 75 [] OTHER -> 90)
Apart(fs, S) ==
    LET k == Cardinality(S)
        bound == CASE k = 6 -> 150 [] k = 10 -> 250 [] OTHER -> 470
    IN Len(fs) >= 120 * k => /\ Len(fs[1]) > 1 => ~Uneven(Adjoining(fs, S), k * k, bound)
                             /\ ~Uneven(Following(fs, S), k * k, bound)

(* fills hardly repeat where there are many: as many may as in Repeats *)
Repeats(k, P) ==
    CASE k = 16 /\ P >= 16 -> 0
      [] (k = 16 /\ P >= 9) \/ (k = 10 /\ P >= 10) -> 1
      [] (k = 16 /\ P >= 7) \/ (k = 10 /\ P >= 8) \/ (k = 6 /\ P >= 10) -> 4
      [] OTHER -> 2000000000
NoRepeats(fs, S) == Len(fs) - Cardinality({fs[i] : i \in 1 .. Len(fs)}) <= Repeats(Cardinality(S), Len(fs[1]))

(* What is wrong with a run of fills, if anything *)
Flaw(fs, S) ==
    IF \E i \in 1 .. Len(fs) : \E p \in 1 .. Len(fs[i]) : fs[i][p] \notin S THEN "other digits"
    ELSE IF ~NoRepeats(fs, S) THEN "repeats"
    ELSE IF ~Spread(fs, S) THEN "values left out"
    ELSE IF ~Evenly(fs, S) THEN "uneven"
    ELSE IF ~Loose(fs, S) \/ ~Apart(fs, S) THEN "can be told from others"
    ELSE "none"

(* fills that are no good, and are found out: constant ones, counters, a few in turn, copies of one digit *)
ASSUME LET Run(F(_)) == [i \in 1 .. 1920 |-> [p \in 1 .. 9 |-> F(<<i, p>>)]] IN
    /\ Flaw(Run(LAMBDA x : 7), Digit16) = "repeats"
    /\ Flaw(Run(LAMBDA x : (x[1] + x[2]) % 16), Digit16) = "repeats"
    /\ Flaw([i \in 1 .. 1920 |-> <<i % 16>>], Digit16) = "can be told from others"
    /\ Flaw([i \in 1 .. 1920 |-> <<(i \div 16) % 5>>], Digit16) = "values left out"
    /\ Flaw([i \in 1 .. 1920 |-> <<17>>], Digit16) = "other digits"
    /\ Flaw([i \in 1 .. 1920 |-> LET a == (i * i + i \div 7) % 16 IN <<a, a>>], Digit16) # "none"
=============================================================================
