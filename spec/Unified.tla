------------------------------ MODULE Unified ------------------------------
(***************************************************************************)
(* The operations by name and in text form, as the service, the HTTP API   *)
(* and the command line offer them: binary values are hexadecimal texts,   *)
(* answers are lower case hexadecimal, except for decrypted PINs and data.  *)
(* Anything that is not "aes" is TDES.                                     *)
(*                                                                         *)
(* p is a record of texts (character codes) and of names (strings):        *)
(*   alg keytype bdk ksn ik tk pin pan fmt mactype text ct action iv       *)
(***************************************************************************)
EXTENDS Library

LibCall(op, p) ==
    LET aes == p.alg = "aes"
        key == HexToBytes(p.tk)
        ksn == HexToBytes(p.ksn)
    IN
    CASE op = "ik" -> [op |-> IF aes THEN "aes.ik" ELSE "des.ik", bdk |-> HexToBytes(p.bdk), ksn |-> ksn]
      [] op = "tk" -> [op |-> IF aes THEN "aes.tk" ELSE "des.tk", ik |-> HexToBytes(p.ik), ksn |-> ksn]
      [] op = "ep" -> [op |-> IF aes THEN "aes.ep" ELSE "des.ep", key |-> key, ksn |-> ksn,
                       pin |-> p.pin, pan |-> p.pan, fmt |-> p.fmt, type |-> p.keytype]
      [] op = "dp" -> [op |-> IF aes THEN "aes.dp" ELSE "des.dp", key |-> key, ksn |-> ksn,
                       ct |-> HexToBytes(p.ct), pan |-> p.pan, fmt |-> p.fmt, type |-> p.keytype]
      [] op = "mac" -> [op |-> IF ~aes THEN "des.mac"
                               ELSE IF p.mactype = "cmac" THEN "aes.cmac"
                               ELSE IF p.mactype = "hmac" THEN "aes.hmac" ELSE "none",
                        key |-> key, ksn |-> ksn, text |-> p.text, type |-> p.keytype, action |-> p.action]
      [] op = "en" -> [op |-> IF aes THEN "aes.en" ELSE "des.en", key |-> key, ksn |-> ksn,
                       iv |-> HexToBytes(p.iv), text |-> p.text, type |-> p.keytype, action |-> p.action]
      [] op = "de" -> [op |-> IF aes THEN "aes.de" ELSE "des.de", key |-> key, ksn |-> ksn,
                       ct |-> HexToBytes(p.ct), iv |-> HexToBytes(p.iv), type |-> p.keytype, action |-> p.action]

AnswersText(op) == op \in {"dp", "de"}

UAnswer(op, p) ==
    LET c == LibCall(op, p) IN
    IF c.op = "none" THEN Err
    ELSE LET a == Answer(c) IN IF a.ok /\ ~AnswersText(op) THEN Ok(BytesToHex(a.out)) ELSE a

IsLowerHex(t) == HexDecodes(t) /\ Lower(t) = t

UAllowed(op, p, a) ==
    LET c == LibCall(op, p) IN
    IF op = "ep" THEN IF a.ok THEN IsLowerHex(a.out) /\ Possible(c, HexToBytes(a.out)) ELSE ~Accepted(c)
    ELSE LET e == UAnswer(op, p)
         IN  \/ a.ok = e.ok /\ (e.ok => a.out = e.out)
             \/ Gap(c, a)
=============================================================================
