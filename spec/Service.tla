------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* The service with the real cryptography: ServiceCore over texts, and the *)
(* operations that use a machine's current key.                            *)
(***************************************************************************)
EXTENDS Unified

LOCAL INSTANCE TLCExt

RealKnown(a) == a \in {"des", "aes"}
Params(alg, akey) == [alg |-> alg, keytype |-> akey, bdk |-> <<>>, ksn |-> <<>>, ik |-> <<>>, tk |-> <<>>,
                      pin |-> <<>>, pan |-> <<>>, fmt |-> <<>>, mactype |-> "", text |-> <<>>, ct |-> <<>>,
                      action |-> "", iv |-> <<>>]
(* computed once for the same arguments *)
RealInitialKey(b) == TLCCache(TLCEval(UAnswer("ik", [Params(b.alg, b.akey) EXCEPT !.bdk = b.bdk, !.ksn = b.ksn])), <<"ik", b>>)
RealTransactionKey(alg, ik, ksn) == TLCCache(TLCEval(UAnswer("tk", [Params(alg, "") EXCEPT !.ik = ik, !.ksn = ksn])), <<"tk", alg, ik, ksn>>)
RealNextKsn(alg, ksn) ==
    LET a == IF alg = "aes" THEN NextAesKsn(HexToBytes(ksn)) ELSE NextDesKsn(HexToBytes(ksn))
    IN  IF a.ok THEN Ok(BytesToHex(a.out)) ELSE Err

INSTANCE ServiceCore WITH
    KnownAlgorithm <- RealKnown, InitialKeyOf <- RealInitialKey,
    TransactionKeyOf <- RealTransactionKey, NextKsnOf <- RealNextKsn

CryptoOps == {"ep", "dp", "mac", "en", "de"}

HmacType(t) == CASE t = "AES128" -> "HMAC128" [] t = "AES192" -> "HMAC192" [] t = "AES256" -> "HMAC256" [] OTHER -> t
IsoZero == <<73, 83, 79, 45, 48>>

(* What a machine does with an operation: the parameters it is carried out with. *)
(* The key type of a machine serves for a HMAC, too; the format defaults to ISO-0. *)
OnMachine(m, c) ==
    LET base == [Params(m.alg, m.akey) EXCEPT !.tk = m.tk, !.ksn = m.ksn] IN
    CASE c.op = "ep"  -> [base EXCEPT !.pin = c.pin, !.pan = c.pan, !.fmt = IF c.fmt = <<>> THEN IsoZero ELSE c.fmt]
      [] c.op = "dp"  -> [base EXCEPT !.ct = c.ct, !.pan = c.pan, !.fmt = IF c.fmt = <<>> THEN IsoZero ELSE c.fmt]
      [] c.op = "mac" -> [base EXCEPT !.text = c.text, !.action = c.action, !.mactype = c.mactype,
                                      !.keytype = IF c.mactype = "hmac" THEN HmacType(m.akey) ELSE m.akey]
      [] c.op = "en"  -> [base EXCEPT !.text = c.text, !.action = c.action, !.iv = c.iv]
      [] c.op = "de"  -> [base EXCEPT !.ct = c.ct, !.action = c.action, !.iv = c.iv]

(* Is (kind, text) right for crypto operation c on the registry? *)
CryptoRight(reg, c, kind, text) ==
    IF c.ik \notin DOMAIN reg THEN kind = "notfound"
    ELSE /\ kind \in {"ok", "other"}
         /\ UAllowed(c.op, OnMachine(reg[c.ik], c), [ok |-> kind = "ok", out |-> text])

(* One operation with its recorded outcome (see ServiceTrace for the fields): *)
(* does it fit the registry, and what does the registry become?               *)
Listed(ms, r) == Len(ms) = Cardinality(DOMAIN r) /\ {ms[i] : i \in 1 .. Len(ms)} = Machines(r)
Effect(reg, t) ==
    CASE t.op = "create" -> Create(reg, t.b)
      [] t.op = "store"  -> Store(reg, t.m)
      [] t.op \in {"get", "find"} -> Get(reg, t.ik)
      [] t.op = "next"   -> Next_(reg, t.ik)
      [] t.op \in {"delete", "drop"} -> Delete(reg, t.ik)
      [] OTHER           -> Said(reg, "ok", Nobody)
Fits(reg, t) ==
    IF t.op \in CryptoOps THEN CryptoRight(reg, t, t.kind, t.said)
    ELSE LET r == Effect(reg, t) IN
         /\ t.kind = r.kind
         /\ CASE t.op \in {"list", "all"} -> Listed(t.ms, reg)
              [] t.op = "create" -> t.ms = <<IF r.kind = "ok" THEN r.m ELSE t.sub>>
              [] t.op \in {"delete", "drop", "store"} -> TRUE
              [] r.kind # "ok" -> t.ms = <<>>
              [] OTHER -> t.ms = <<r.m>>
=============================================================================
