----------------------------- MODULE PinBlocks -----------------------------
(***************************************************************************)
(* PIN block formats: which clear blocks may carry a PIN, and which PIN a  *)
(* clear block carries.  PINs, account numbers (PAN) and format names are  *)
(* texts (sequences of character codes); a block is 8 bytes (16 for the    *)
(* clear PIN field of ISO-4).                                              *)
(*                                                                         *)
(* Several formats fill with random digits, so encoding is a relation:     *)
(* EncodesTo(format, pin, pan, block).                                     *)
(***************************************************************************)
EXTENDS Bytes, Ksn

(* the names, upper case *)
LOCAL N == [iso0 |-> <<73, 83, 79, 45, 48>>, iso1 |-> <<73, 83, 79, 45, 49>>,
            iso2 |-> <<73, 83, 79, 45, 50>>, iso3 |-> <<73, 83, 79, 45, 51>>,
            iso4 |-> <<73, 83, 79, 45, 52>>, ansi |-> <<65, 78, 83, 73>>,
            eci1 |-> <<69, 67, 73, 49>>, eci2 |-> <<69, 67, 73, 50>>,
            eci3 |-> <<69, 67, 73, 51>>, eci4 |-> <<69, 67, 73, 52>>,
            visa1 |-> <<86, 73, 83, 65, 49>>, visa2 |-> <<86, 73, 83, 65, 50>>,
            visa3 |-> <<86, 73, 83, 65, 51>>, visa4 |-> <<86, 73, 83, 65, 52>>]

Family(name) ==
    LET f == Upper(name) IN
    CASE f \in {N.iso0, N.ansi, N.eci1, N.visa1, N.visa4} -> "iso0"
      [] f = N.iso3 -> "iso3"
      [] f \in {N.iso1, N.eci4} -> "iso1"
      [] f = N.iso2 -> "iso2"
      [] f = N.iso4 -> "iso4"
      [] f = N.eci2 -> "eci2"
      [] f = N.eci3 -> "eci3"
      [] f = N.visa2 -> "visa2"
      [] f = N.visa3 -> "visa3"
      [] OTHER -> "none"

(* How much of the PIN a format carries; 0 = the PIN is refused *)
CarriedLen(fam, n) ==
    CASE fam \in {"iso0", "iso3"} -> IF n \in 4 .. 12 THEN n ELSE 0
      [] fam \in {"iso1", "iso2", "visa3"} -> IF n < 4 THEN 0 ELSE IF n > 12 THEN 12 ELSE n
      [] fam = "eci2" -> IF n \in 4 .. 12 THEN 4 ELSE 0
      [] fam \in {"eci3", "visa2"} -> IF n \notin 4 .. 12 THEN 0 ELSE IF n > 6 THEN 6 ELSE n
      [] OTHER -> 0
Carried(fam, pin) == Take(pin, CarriedLen(fam, Len(pin)))

UsesPan(fam) == fam \in {"iso0", "iso3"}
(* the 12 digits left of the check digit, right justified in 16 *)
PanDigits(pan) == SubSeq(pan, Len(pan) - 12, Len(pan) - 1)
PanBlock(pan) == FromNibbles(Zeros(4) \o Digits(PanDigits(pan)))

CanEncode(fam, pin, pan) ==
    /\ fam \notin {"none", "iso4"}
    /\ CarriedLen(fam, Len(pin)) > 0
    /\ AllHex(Carried(fam, pin))
    /\ UsesPan(fam) => Len(pan) >= 13 /\ AllHex(PanDigits(pan))

(* Is d (16 hexadecimal digits) a clear field for the PIN digits p? *)
FieldOK(fam, p, d) ==
    LET n == Len(p)
        Fills(i, S) == \A j \in i .. 16 : d[j] \in S
        Has(i) == SubSeq(d, i, i + n - 1) = p
    IN
    CASE fam = "iso0" -> d[1] = 0 /\ d[2] = n /\ Has(3) /\ Fills(3 + n, {15})
      [] fam = "iso3" -> d[1] = 3 /\ d[2] = n /\ Has(3) /\ Fills(3 + n, 10 .. 15)
      [] fam = "iso1" -> d[1] = 1 /\ d[2] = n /\ Has(3) /\ Fills(3 + n, 0 .. 9)
      [] fam = "iso2" -> d[1] = 2 /\ d[2] = n /\ Has(3) /\ Fills(3 + n, {15})
      [] fam = "eci2" -> Has(1)
      [] fam = "eci3" -> d[1] = n /\ Has(2) /\ \A j \in 2 + n .. 7 : d[j] = 0
      [] fam = "visa2" -> d[1] = n /\ Has(2) /\ (\A j \in 2 + n .. 7 : d[j] = 0) /\ Fills(8, 0 .. 9)
      [] fam = "visa3" -> Has(1) /\ d[1 + n] = 15 /\ (\A j \in 2 + n .. 16 : d[j] \in 10 .. 15 /\ d[j] = d[16])

(* the clear digits under the PAN, for formats that mix it in *)
Unmix(fam, block, pan) == Nibbles(IF UsesPan(fam) THEN XorB(block, PanBlock(pan)) ELSE block)

EncodesTo(fam, pin, pan, block) ==
    /\ CanEncode(fam, pin, pan)
    /\ Len(block) = 8
    /\ FieldOK(fam, Digits(Carried(fam, pin)), Unmix(fam, block, pan))

(* The PIN in a block.  Blocks made with another key or PAN are noise: they *)
(* give an error or some digits, never anything else.                       *)
(* pinblock's ISO-0 and ISO-3 decoders return lower case hexadecimal.        *)
Text(d) == DigitText(d)
LowerText(d) == Lower(DigitText(d))

(* The full decoder, as the formats define it *)
IdealDecode(fam, block, pan) ==
    IF fam \in {"none", "iso4"} \/ (UsesPan(fam) /\ ~(Len(pan) >= 13 /\ AllHex(PanDigits(pan))))
    THEN Err
    ELSE LET d == Unmix(fam, block, pan) IN
      CASE fam \in {"iso0", "iso3"} ->
             IF d[1] # (IF fam = "iso0" THEN 0 ELSE 3) \/ d[2] > 12 THEN Err
             ELSE Ok(LowerText(SubSeq(d, 3, 2 + d[2])))
        [] fam \in {"iso1", "iso2"} ->
             IF d[1] # (IF fam = "iso1" THEN 1 ELSE 2) \/ d[2] > 14 THEN Err
             ELSE Ok(Text(SubSeq(d, 3, 2 + d[2])))
        [] fam = "eci2" -> Ok(Text(SubSeq(d, 1, 4)))
        [] fam \in {"eci3", "visa2"} ->
             IF d[1] \notin 4 .. 6 THEN Err ELSE Ok(Text(SubSeq(d, 2, 1 + d[1])))
        [] fam = "visa3" ->
             IF \A j \in 1 .. 16 : d[j] # 15 THEN Err
             ELSE LET i == CHOOSE j \in 1 .. 16 : d[j] = 15 /\ \A k \in 1 .. j - 1 : d[k] # 15
                  IN  IF i - 1 \in 4 .. 12 THEN Ok(Text(SubSeq(d, 1, i - 1))) ELSE Err

(* ISO-4 (AES): the clear PIN field of 16 bytes, and the PAN field *)
CanEncode4(pin, pan) ==
    Len(pin) \in 4 .. 12 /\ AllHex(pin) /\ Len(pan) \in 12 .. 19 /\ AllHex(pan)
PanField4(pan) == FromNibbles(<<Len(pan) - 12>> \o Digits(pan) \o Zeros(31 - Len(pan)))
Field4OK(pin, f) ==
    LET d == Nibbles(f) n == Len(pin) IN
    /\ Len(f) = 16
    /\ d[1] = 4 /\ d[2] = n /\ SubSeq(d, 3, 2 + n) = Digits(pin)
    /\ \A j \in 3 + n .. 16 : d[j] = 10
Decode4(f) ==
    LET d == Nibbles(f) IN Ok(LowerText(SubSeq(d, 3, 2 + d[2])))
=============================================================================
