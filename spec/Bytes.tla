------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings: sequences of 0..255.  Everything the specification says   *)
(* about keys, key serial numbers, blocks and messages is said with these. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, TLC

Byte == 0 .. 255

Zeros(n) == [i \in 1 .. n |-> 0]
Fill(n, b) == [i \in 1 .. n |-> b]

(* XOR of two byte strings of the same length *)
XorB(a, b) == TLCEval([i \in 1 .. Len(a) |-> a[i] ^^ b[i]])

Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rightmost(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

(* n bytes: s, cut or padded with zero bytes on the right *)
Fit(s, n) == Take(s, n) \o Zeros(IF Len(s) < n THEN n - Len(s) ELSE 0)

(* s padded with zero bytes to a whole number of n-byte blocks (none if empty) *)
PadZero(s, n) ==
    LET r == Len(s) % n IN IF r = 0 THEN s ELSE s \o Zeros(n - r)

NumBlocks(s, n) == Len(s) \div n
Block(s, n, i) == SubSeq(s, (i - 1) * n + 1, i * n)

(* Big-endian bits of a byte string, most significant first, and back *)
ByteBits(b) == [i \in 1 .. 8 |-> (b \div (2 ^ (8 - i))) % 2]
ToBits(s) == TLCEval([i \in 1 .. 8 * Len(s) |->
                (s[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2])
FromBits(bits) == TLCEval([i \in 1 .. (Len(bits) \div 8) |->
    LET o == 8 * (i - 1) IN
      128 * bits[o + 1] + 64 * bits[o + 2] + 32 * bits[o + 3] + 16 * bits[o + 4]
        + 8 * bits[o + 5] + 4 * bits[o + 6] + 2 * bits[o + 7] + bits[o + 8]])

(* Nibbles (hexadecimal digits as 0..15) of a byte string and back *)
Nibbles(s) == TLCEval([i \in 1 .. 2 * Len(s) |->
                IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16])
FromNibbles(d) == TLCEval([i \in 1 .. (Len(d) \div 2) |-> 16 * d[2 * i - 1] + d[2 * i]])

(* Character codes.  Texts cross the boundary to the implementation as the *)
(* sequences of their bytes, because TLA+ strings cannot be taken apart.    *)
IsDigitCode(c) == c \in 48 .. 57
IsHexCode(c) == c \in 48 .. 57 \/ c \in 65 .. 70 \/ c \in 97 .. 102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
LowerHexCode(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UpperHexCode(n) == IF n < 10 THEN 48 + n ELSE 55 + n
AllDigits(t) == \A i \in 1 .. Len(t) : IsDigitCode(t[i])
AllHex(t) == \A i \in 1 .. Len(t) : IsHexCode(t[i])
Digits(t) == TLCEval([i \in 1 .. Len(t) |-> HexVal(t[i])])
DigitText(d) == TLCEval([i \in 1 .. Len(d) |-> UpperHexCode(d[i])])

(* Hexadecimal text -> bytes.  Text that is not hexadecimal (or has an odd  *)
(* number of digits) stands for no bytes at all, as does the empty text.    *)
HexDecodes(t) == Len(t) % 2 = 0 /\ AllHex(t)
HexToBytes(t) == IF HexDecodes(t) THEN FromNibbles(Digits(t)) ELSE <<>>
BytesToHex(s) == LET n == Nibbles(s) IN TLCEval([i \in 1 .. Len(n) |-> LowerHexCode(n[i])])

LowerCode(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
UpperCode(c) == IF c \in 97 .. 122 THEN c - 32 ELSE c
Upper(t) == TLCEval([i \in 1 .. Len(t) |-> UpperCode(t[i])])
Lower(t) == TLCEval([i \in 1 .. Len(t) |-> LowerCode(t[i])])
=============================================================================
