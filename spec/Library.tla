------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library's calls: what each may answer.  A call is a record          *)
(* [op, arguments...]; an answer is Ok(bytes) or Err.  Allowed(c, a) says   *)
(* whether answer a is right for call c.                                   *)
(***************************************************************************)
EXTENDS TdesDukpt, AesDukpt

U32(c) == FromBits(Zeros(32 - Len(c)) \o c)

BadOp == Ok("no such operation")

(* Several blocks, one after the other, with one cipher object: every block *)
(* is answered by itself (1 and the result, or 0 for a refusal).            *)
KeyFits(op, key) == CASE op = "ecb.aes.seq" -> IsAesKey(key)
                      [] op = "ecb.des.seq" -> Len(key) = 8
                      [] op = "ecb.tdes.seq" -> Len(key) \in {16, 24}
OneBlock(op, key, back, b) ==
    CASE op = "ecb.aes.seq" -> IF Len(b) # 16 THEN <<0>> ELSE <<1>> \o (IF back THEN AesDecBlock(key, b) ELSE AesEncBlock(key, b))
      [] op = "ecb.des.seq" -> IF Len(b) # 8 THEN <<0>> ELSE <<1>> \o (IF back THEN DesDecBlock(key, b) ELSE DesEncBlock(key, b))
      [] op = "ecb.tdes.seq" -> IF Len(b) # 8 THEN <<0>> ELSE <<1>> \o (IF back THEN TdesDec(key, b) ELSE TdesEnc(key, b))
RECURSIVE EachBlock(_, _, _)
EachBlock(c, i, at) ==
    IF i > Len(c.lens) THEN <<>>
    ELSE LET to == IF at + c.lens[i] < Len(c.block) THEN at + c.lens[i] ELSE Len(c.block)
         IN  OneBlock(c.op, c.key, c.dirs[i] = 1, SubSeq(c.block, at + 1, to)) \o EachBlock(c, i + 1, to)

(* every last byte, the answers one after the other *)
RowOf(F(_), data) ==
    LET RECURSIVE R(_, _)
        R(a, b) == IF a = b THEN LET x == F(Append(data, a)) IN <<Len(x)>> \o x
                   ELSE TLCEval(R(a, (a + b) \div 2)) \o TLCEval(R((a + b) \div 2 + 1, b))
    IN  R(0, 255)

(* the deterministic operations *)
Answer(c) ==
  CASE c.op = "des.ik"  -> InitialTdesKey(c.bdk, c.ksn)
    [] c.op = "des.tk"  -> TransactionTdesKey(c.ik, c.ksn)
    [] c.op = "des.dp"  -> TdesDecryptPin(c.key, c.ct, c.pan, c.fmt)
    [] c.op = "des.mac" -> TdesMac(c.key, c.text, c.action)
    [] c.op = "des.en"  -> TdesEncryptData(c.key, c.iv, c.text, c.action)
    [] c.op = "des.de"  -> TdesDecryptData(c.key, c.ct, c.iv, c.action)
    [] c.op = "aes.ik"  -> InitialAesKey(c.bdk, c.ksn)
    [] c.op = "aes.tk"  -> TransactionAesKey(c.ik, c.ksn)
    [] c.op = "aes.dp"  -> AesDecryptPin(c.key, c.ksn, c.ct, c.pan, c.type)
    [] c.op = "aes.cmac" -> AesCmac(c.key, c.ksn, c.text, c.type, c.action)
    [] c.op = "aes.hmac" -> AesHmac(c.key, c.ksn, c.text, c.type, c.action)
    [] c.op = "aes.en"  -> AesEncryptData(c.key, c.ksn, c.iv, c.text, c.type, c.action)
    [] c.op = "aes.de"  -> AesDecryptData(c.key, c.ksn, c.ct, c.iv, c.type, c.action)
    [] c.op = "ksn.des" -> NextDesKsn(c.ksn)
    [] c.op = "ksn.aes" -> NextAesKsn(c.ksn)
    [] c.op = "ksn.valid" -> Ok(IF ValidAesKsn(c.ksn) THEN <<1>> ELSE <<0>>)
    [] c.op = "ksn.tcdes" -> Ok(IF Len(c.ksn) > 3 THEN U32(CounterOf(c.ksn, DesWidth)) ELSE Zeros(4))
    [] c.op = "ksn.tcaes" -> Ok(IF Len(c.ksn) > 4 THEN U32(CounterOf(c.ksn, AesWidth)) ELSE Zeros(4))
    [] c.op = "hex.dec" -> Ok(HexToBytes(c.text))
    [] c.op = "hex.enc" -> Ok(BytesToHex(c.data))
    [] c.op = "hex.decrow" -> Ok(RowOf(HexToBytes, c.data))
    [] c.op = "hex.encrow" -> Ok(RowOf(BytesToHex, c.data))
    [] c.op = "ecb.aes.enc" -> IF IsAesKey(c.key) /\ Len(c.block) = 16 THEN Ok(AesEncBlock(c.key, c.block)) ELSE Err
    [] c.op = "ecb.aes.dec" -> IF IsAesKey(c.key) /\ Len(c.block) = 16 THEN Ok(AesDecBlock(c.key, c.block)) ELSE Err
    [] c.op = "ecb.des.enc" -> IF Len(c.key) = 8 /\ Len(c.block) = 8 THEN Ok(DesEncBlock(c.key, c.block)) ELSE Err
    [] c.op = "ecb.des.dec" -> IF Len(c.key) = 8 /\ Len(c.block) = 8 THEN Ok(DesDecBlock(c.key, c.block)) ELSE Err
    [] c.op = "ecb.tdes.enc" -> IF Len(c.key) \in {16, 24} /\ Len(c.block) = 8 THEN Ok(TdesEnc(c.key, c.block)) ELSE Err
    [] c.op = "ecb.tdes.dec" -> IF Len(c.key) \in {16, 24} /\ Len(c.block) = 8 THEN Ok(TdesDec(c.key, c.block)) ELSE Err
    [] c.op \in {"ecb.aes.seq", "ecb.des.seq", "ecb.tdes.seq"} -> IF KeyFits(c.op, c.key) THEN Ok(EachBlock(c, 1, 0)) ELSE Err
    [] OTHER -> BadOp

(* the operations that may fill with random digits *)
Randomized == {"des.ep", "aes.ep"}
Accepted(c) == IF c.op = "des.ep" THEN TdesPinAccepted(c.key, c.pin, c.pan, c.fmt)
               ELSE AesPinAccepted(c.key, c.ksn, c.pin, c.pan, c.type)
Possible(c, out) == IF c.op = "des.ep" THEN TdesPinCipher(c.key, c.pin, c.pan, c.fmt, out)
                    ELSE AesPinCipher(c.key, c.ksn, c.pin, c.pan, c.type, out)

Allowed(c, a) ==
    IF c.op \in Randomized
    THEN IF a.ok THEN Possible(c, a.out) ELSE ~Accepted(c)
    ELSE LET e == Answer(c) IN a.ok = e.ok /\ (e.ok => a.out = e.out)

(* A known gap (known-findings.jsonl, pin-10-12): pinblock's ISO-0 and ISO-3 *)
(* decoders fail on PINs of 10 to 12 digits.  Allowed does not excuse it;   *)
(* traces in which it shows are told apart with this.                       *)
Gap(c, a) ==
    /\ c.op = "des.dp" /\ ~a.ok
    /\ Family(c.fmt) \in {"iso0", "iso3"}
    /\ LET e == Answer(c) IN e.ok /\ Len(e.out) \in 10 .. 12

(* What decrypting an encrypted PIN gives back, and an encrypted text.      *)
(* VISA-3 ends the PIN with an F, so PINs with that digit do not come back.  *)
ComesBack(c) == c.op = "des.ep" /\ Family(c.fmt) = "visa3" => \A i \in 1 .. Len(Carried("visa3", c.pin)) : c.pin[i] \notin {70, 102}
PinBack(c) == IF c.op = "des.ep"
              THEN LET p == Carried(Family(c.fmt), c.pin)
                   IN  Ok(IF UsesPan(Family(c.fmt)) THEN Lower(p) ELSE Upper(p))
              ELSE Ok(Lower(c.pin))
DataBack(c) == Ok(PadZero(c.text, IF c.op = "des.en" THEN 8 ELSE 16))
=============================================================================
