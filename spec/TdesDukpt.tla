----------------------------- MODULE TdesDukpt -----------------------------
(***************************************************************************)
(* TDES DUKPT as ANSI X9.24-1:2009 defines it: the initial key, the keys   *)
(* of transactions, and what is done with them.  Every operation yields    *)
(* Ok(bytes) or Err.                                                       *)
(***************************************************************************)
EXTENDS DesCipher, Ksn, Cbc, PinBlocks

(* E-D-E: encrypt with the first part, decrypt with the second, encrypt with the third or first *)
TdesEnc(k, b) ==
    LET k3 == IF Len(k) = 24 THEN SubSeq(k, 17, 24) ELSE SubSeq(k, 1, 8)
    IN  DesEncBlock(k3, DesDecBlock(SubSeq(k, 9, 16), DesEncBlock(SubSeq(k, 1, 8), b)))
TdesDec(k, b) ==
    LET k3 == IF Len(k) = 24 THEN SubSeq(k, 17, 24) ELSE SubSeq(k, 1, 8)
    IN  DesDecBlock(SubSeq(k, 1, 8), DesEncBlock(SubSeq(k, 9, 16), DesDecBlock(k3, b)))

KeyLen == 16
IsTdesKey(k) == Len(k) = KeyLen
IsDesKsn(ksn) == Len(ksn) \in 1 .. DesKsnLen
FullKsn(ksn) == Fill(DesKsnLen - Len(ksn), 255) \o ksn

KeyMask == <<192, 192, 192, 192, 0, 0, 0, 0, 192, 192, 192, 192, 0, 0, 0, 0>>

(* A.6: the initial key *)
InitialTdesKey(bdk, ksn) ==
    IF IsTdesKey(bdk) /\ IsDesKsn(ksn)
    THEN LET id == Take(WithCounter(FullKsn(ksn), Zeros(DesWidth)), 8)
         IN  Ok(TdesEnc(bdk, id) \o TdesEnc(XorB(bdk, KeyMask), id))
    ELSE Err

(* A.2: the non-reversible key generation process.  reg is the 64 right-   *)
(* most bits of the KSN register.                                          *)
NonReversible(key, reg) ==
    LET Half(k) == XorB(DesEncBlock(SubSeq(k, 1, 8), XorB(reg, SubSeq(k, 9, 16))), SubSeq(k, 9, 16))
    IN  Half(XorB(key, KeyMask)) \o Half(key)

(* One derivation step: the key below `key` for counter c *)
TdesStep(ksn10, key, c) == NonReversible(key, SubSeq(WithCounter(ksn10, c), 3, 10))

(* The host's derivation: one step for every one in the counter, from the top *)
HostTdesKey(ik, ksn10) ==
    LET c == CounterOf(ksn10, DesWidth)
        Upto(i) == [j \in 1 .. DesWidth |-> IF j <= i THEN c[j] ELSE 0]
        RECURSIVE Walk(_, _)
        Walk(key, i) == IF i > DesWidth THEN key
                        ELSE IF c[i] = 0 THEN Walk(key, i + 1)
                        ELSE LET k == TLCEval(TdesStep(ksn10, key, Upto(i)))
                             IN  IF k = <<>> THEN k ELSE Walk(k, i + 1)
    IN  Walk(ik, 1)

TransactionTdesKey(ik, ksn) ==
    IF IsTdesKey(ik) /\ IsDesKsn(ksn) THEN Ok(HostTdesKey(ik, FullKsn(ksn))) ELSE Err

(* A.4.1 table A-1: the variants of the current key *)
Variant(key, byteOf8) == TLCEval([i \in 1 .. 16 |->
    IF i = byteOf8 \/ i = byteOf8 + 8 THEN 255 - key[i] ELSE key[i]])
TdesPinKey(key) == Variant(key, 8)
TdesMacKey(key, response) == Variant(key, IF response THEN 5 ELSE 7)
TdesDataKey(key, response) ==
    LET v == Variant(key, IF response THEN 4 ELSE 6)
    IN  TdesEnc(v, SubSeq(v, 1, 8)) \o TdesEnc(v, SubSeq(v, 9, 16))

(* ISO 16609 C.4 CBC-MAC (retail MAC) over the zero padded text *)
TdesMac(key, text, action) ==
    IF ~IsTdesKey(key) THEN Err
    ELSE LET k == TdesMacKey(key, IsResponse(action))
             l == SubSeq(k, 1, 8)
             r == SubSeq(k, 9, 16)
             p == PadZero(text, 8)
             blocks == [i \in 1 .. NumBlocks(p, 8) |-> Block(p, 8, i)]
             chain == FoldLeft(LAMBDA acc, b : DesEncBlock(l, XorB(acc, b)), Zeros(8), blocks)
         IN  Ok(DesEncBlock(l, DesDecBlock(r, chain)))

(* Data is zero padded to whole blocks; so is a cipher text that is cut off. *)
(* A short initial vector is padded with zeros, a long one truncated.        *)
TdesEncryptData(key, iv, text, action) ==
    IF ~IsTdesKey(key) THEN Err
    ELSE LET k == TdesDataKey(key, IsResponse(action))
         IN  Ok(CbcEnc(LAMBDA b : TdesEnc(k, b), Fit(iv, 8), PadZero(text, 8), 8))
TdesDecryptData(key, ct, iv, action) ==
    IF ~IsTdesKey(key) THEN Err
    ELSE LET k == TdesDataKey(key, IsResponse(action))
         IN  Ok(CbcDec(LAMBDA b : TdesDec(k, b), Fit(iv, 8), PadZero(ct, 8), 8))

(* PIN encryption: the clear block under the PIN variant.  out is a possible *)
(* result of encrypting pin for pan in the format named fmt.                 *)
TdesPinAccepted(key, pin, pan, fmt) == IsTdesKey(key) /\ CanEncode(Family(fmt), pin, pan)
TdesPinCipher(key, pin, pan, fmt, out) ==
    /\ TdesPinAccepted(key, pin, pan, fmt)
    /\ Len(out) = 8
    /\ EncodesTo(Family(fmt), pin, pan, TdesDec(TdesPinKey(key), out))
TdesDecryptPin(key, ct, pan, fmt) ==
    IF ~IsTdesKey(key) \/ Len(ct) # 8 THEN Err
    ELSE IdealDecode(Family(fmt), TdesDec(TdesPinKey(key), ct), pan)
=============================================================================
