------------------------------ MODULE PinModel ------------------------------
(* Every block that may carry a PIN gives that PIN back, and no other block  *)
(* format takes it for its own; also with one digit of the block changed.    *)
EXTENDS PinBlocks, FiniteSets
CONSTANTS Lengths, Patterns, Fillers
Families == {"iso0", "iso1", "iso2", "iso3", "eci2", "eci3", "visa2", "visa3"}
PanT == [i \in 1 .. 16 |-> 48 + ((7 * i) % 10)]
PinT(n, a) == [i \in 1 .. n |-> 48 + ((a * i + a) % 10)]
Build(fam, p, f) ==
    LET n == Len(p) IN
    CASE fam = "iso0" -> <<0, n>> \o p \o Fill(14 - n, 15)
      [] fam = "iso3" -> <<3, n>> \o p \o Fill(14 - n, 10 + (f % 6))
      [] fam = "iso1" -> <<1, n>> \o p \o Fill(14 - n, f % 10)
      [] fam = "iso2" -> <<2, n>> \o p \o Fill(14 - n, 15)
      [] fam = "eci2" -> p \o Fill(12, f)
      [] fam = "eci3" -> <<n>> \o p \o Zeros(6 - n) \o Fill(9, f)
      [] fam = "visa2" -> <<n>> \o p \o Zeros(6 - n) \o Fill(9, f % 10)
      [] fam = "visa3" -> p \o <<15>> \o Fill(15 - n, 10 + (f % 6))
Mixed(fam, d) == IF UsesPan(fam) THEN XorB(FromNibbles(d), PanBlock(PanT)) ELSE FromNibbles(d)

VARIABLES fam, pin, d
Init == \E x \in Families, n \in Lengths, a \in Patterns, f \in Fillers :
          /\ fam = x /\ pin = PinT(n, a)
          /\ IF CarriedLen(x, n) = 0 THEN d = <<>>
             ELSE d = Build(x, Digits(Carried(x, PinT(n, a))), f)
Next == /\ d # <<>>
        /\ \E i \in 1 .. 16, x \in 0 .. 15 : d' = [d EXCEPT ![i] = x]
        /\ d' # d
        /\ UNCHANGED <<fam, pin>>
Block8 == Mixed(fam, d)
(* the relation and the decoder agree *)
RoundTrip == d # <<>> /\ EncodesTo(fam, pin, PanT, Block8)
             => IdealDecode(fam, Block8, PanT) = Ok(Carried(fam, pin))
BuiltOK == (d = <<>>) = ~CanEncode(fam, pin, PanT)
Built == TLCGet("level") = 1 /\ d # <<>> => EncodesTo(fam, pin, PanT, Block8)
Short == TLCGet("level") < 2
(* a decoded PIN never reaches past the block *)
Sane == d # <<>> => LET r == IdealDecode(fam, Block8, PanT) IN r.ok => Len(r.out) <= 14
=============================================================================
