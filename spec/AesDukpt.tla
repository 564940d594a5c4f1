------------------------------ MODULE AesDukpt ------------------------------
(***************************************************************************)
(* AES DUKPT as ANSI X9.24-3:2017 defines it, for 128, 192 and 256 bits.   *)
(***************************************************************************)
EXTENDS AesCipher, Sha256, Ksn, Cbc, PinBlocks

IsAesKey(k) == Len(k) \in {16, 24, 32}
AesTypes == {"AES128", "AES192", "AES256"}
HmacTypes == {"HMAC128", "HMAC192", "HMAC256"}
TypeLen(t) == CASE t \in {"AES128", "HMAC128"} -> 16
                [] t \in {"AES192", "HMAC192"} -> 24
                [] t \in {"AES256", "HMAC256"} -> 32
TypeOfLen(n) == CASE n = 16 -> "AES128" [] n = 24 -> "AES192" [] n = 32 -> "AES256"
AlgIndicator(t) == CASE t = "AES128" -> 2 [] t = "AES192" -> 3 [] t = "AES256" -> 4
                     [] t \in HmacTypes -> 5

(* Key usage indicators *)
UsePin == <<16, 0>>
UseMacGen == <<32, 0>>
UseMacVer == <<32, 1>>
UseDataEnc == <<48, 0>>
UseDataDec == <<48, 1>>
UseDerive == <<128, 0>>
UseInitial == <<128, 1>>

Len16(n) == <<n \div 256, n % 256>>

(* 6.3.2 derivation data, block number blk; tail is 8 bytes *)
DerivationData(blk, usage, t, tail) ==
    <<1, blk>> \o usage \o <<0, AlgIndicator(t)>> \o Len16(8 * TypeLen(t)) \o tail

(* 6.3.1: derive a key of type t, as many cipher blocks as its length asks  *)
(* for, cut to that length                                                 *)
DeriveKey(key, usage, t, tail) ==
    LET n == (TypeLen(t) + 15) \div 16
        d == TLCEval([b \in 1 .. n |-> AesEncBlock(key, DerivationData(b, usage, t, tail))])
    IN  Take(IF n = 1 THEN d[1] ELSE d[1] \o d[2], TypeLen(t))

(* The initial key: the initial key ID is the first 8 bytes of the KSN *)
InitialAesKey(bdk, ksn) ==
    IF IsAesKey(bdk) /\ Len(ksn) >= 8
    THEN Ok(DeriveKey(bdk, UseInitial, TypeOfLen(Len(bdk)), Take(ksn, 8)))
    ELSE Err

(* What a derivation below the initial key is bound to: the derivation ID   *)
(* (bytes 5 to 8 of the KSN) and a counter                                  *)
Binding(ksn, c) == SubSeq(ksn, 5, 8) \o FromBits(c)
AesStep(ksn, key, c) == DeriveKey(key, UseDerive, TypeOfLen(Len(key)), Binding(ksn, c))

HostAesKey(ik, ksn) ==
    LET c == CounterOf(ksn, AesWidth)
        Upto(i) == [j \in 1 .. AesWidth |-> IF j <= i THEN c[j] ELSE 0]
        RECURSIVE Walk(_, _)
        Walk(key, i) == IF i > AesWidth THEN key
                        ELSE IF c[i] = 0 THEN Walk(key, i + 1)
                        ELSE LET k == TLCEval(AesStep(ksn, key, Upto(i)))
                             IN  IF k = <<>> THEN k ELSE Walk(k, i + 1)
    IN  Walk(ik, 1)

TransactionAesKey(ik, ksn) ==
    IF IsAesKey(ik) /\ Len(ksn) = AesKsnLen THEN Ok(HostAesKey(ik, ksn)) ELSE Err

(* A working key takes a transaction key of its own length *)
CanWork(key, ksn, t, types) == t \in types /\ Len(key) = TypeLen(t) /\ Len(ksn) = AesKsnLen
WorkingKey(key, ksn, usage, t) == DeriveKey(key, usage, t, Binding(ksn, CounterOf(ksn, AesWidth)))

(* CMAC (NIST SP 800-38B) *)
Double(b) == LET x == ToBits(b)
                 s == FromBits(SubSeq(x, 2, 128) \o <<0>>)
             IN  IF x[1] = 1 THEN XorB(s, Zeros(15) \o <<135>>) ELSE s
Cmac(key, m) ==
    LET k1 == Double(AesEncBlock(key, Zeros(16)))
        k2 == Double(k1)
        n == IF Len(m) = 0 THEN 1 ELSE (Len(m) + 15) \div 16
        tail == SubSeq(m, 16 * (n - 1) + 1, Len(m))
        last == IF Len(tail) = 16 THEN XorB(tail, k1)
                ELSE XorB(Fit(tail \o <<128>>, 16), k2)
        chain == FoldLeft(LAMBDA acc, b : AesEncBlock(key, XorB(acc, b)), Zeros(16),
                          [i \in 1 .. n - 1 |-> Block(m, 16, i)])
    IN  AesEncBlock(key, XorB(chain, last))

MacUse(action) == IF IsResponse(action) THEN UseMacVer ELSE UseMacGen
DataUse(action) == IF IsResponse(action) THEN UseDataDec ELSE UseDataEnc

AesCmac(key, ksn, text, t, action) ==
    IF CanWork(key, ksn, t, AesTypes) THEN Ok(Cmac(WorkingKey(key, ksn, MacUse(action), t), text)) ELSE Err
AesHmac(key, ksn, text, t, action) ==
    IF CanWork(key, ksn, t, HmacTypes) THEN Ok(HmacSha256(WorkingKey(key, ksn, MacUse(action), t), text)) ELSE Err

(* CBC over zero padded data, as for TDES *)
AesEncryptData(key, ksn, iv, text, t, action) ==
    IF ~CanWork(key, ksn, t, AesTypes) THEN Err
    ELSE LET k == WorkingKey(key, ksn, DataUse(action), t)
             p == PadZero(text, 16)
         IN  Ok(CbcEnc(LAMBDA b : AesEncBlock(k, b), Fit(iv, 16), p, 16))
AesDecryptData(key, ksn, ct, iv, t, action) ==
    IF ~CanWork(key, ksn, t, AesTypes) THEN Err
    ELSE LET k == WorkingKey(key, ksn, DataUse(action), t)
             p == PadZero(ct, 16)
         IN  Ok(CbcDec(LAMBDA b : AesDecBlock(k, b), Fit(iv, 16), p, 16))

(* ISO-4 PIN encryption: E(E(pin field) xor pan field) *)
AesPinKey(key, ksn, t) == WorkingKey(key, ksn, UsePin, t)
AesPinField(key, ksn, ct, pan, t) ==
    LET k == AesPinKey(key, ksn, t) IN AesDecBlock(k, XorB(AesDecBlock(k, ct), PanField4(pan)))
AesPinAccepted(key, ksn, pin, pan, t) == CanWork(key, ksn, t, AesTypes) /\ CanEncode4(pin, pan)
AesPinCipher(key, ksn, pin, pan, t, out) ==
    /\ AesPinAccepted(key, ksn, pin, pan, t)
    /\ Len(out) = 16
    /\ Field4OK(pin, AesPinField(key, ksn, out, pan, t))
AesDecryptPin(key, ksn, ct, pan, t) ==
    IF ~CanWork(key, ksn, t, AesTypes) \/ Len(ct) # 16 \/ Len(pan) \notin 12 .. 19 \/ ~AllHex(pan)
    THEN Err
    ELSE Decode4(AesPinField(key, ksn, ct, pan, t))
=============================================================================
