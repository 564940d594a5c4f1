-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool: which invocation does what.  An invocation is     *)
(*   version   -v is given                                                 *)
(*   known     all its flags exist and are well-formed                     *)
(*   sel       the operations selected by -ik -tk -ep -dp -gm -en -de       *)
(*   alg, keytype, macname, action   names, as strings ("-": flag not given)*)
(*   args      the other values: <<[n |-> flag, t |-> text], ...>>          *)
(***************************************************************************)
EXTENDS Unified

Order == <<"ik", "tk", "ep", "dp", "gm", "en", "de">>
OpName == [ik |-> "ik", tk |-> "tk", ep |-> "ep", dp |-> "dp", gm |-> "mac", en |-> "en", de |-> "de"]

In(x, s) == \E i \in 1 .. Len(s) : s[i] = x
Selected(q) == SelectSeq(Order, LAMBDA f : In(f, q.sel))

Given(s, default) == IF s = "-" THEN default ELSE s
Alg(q) == Given(q.alg, "des")
KeyName(q) == Given(q.keytype, "aes128")
Action(q) == Given(q.action, "request")
MacOf(q) == Given(q.macname, "cmac")

Val(q, flag) ==
    LET at == {i \in 1 .. Len(q.args) : q.args[i].n = flag}
    IN  IF at = {} THEN <<>> ELSE q.args[CHOOSE i \in at : TRUE].t

(* key types are accepted in any letter case *)
AesSpelt == {a \o e \o s : a \in {"a", "A"}, e \in {"e", "E"}, s \in {"s", "S"}}
HmacSpelt == {h \o m \o a \o c : h \in {"h", "H"}, m \in {"m", "M"}, a \in {"a", "A"}, c \in {"c", "C"}}
Size == {"128", "192", "256"}
Capitals == [s \in {x \o n : x \in AesSpelt, n \in Size} |-> CHOOSE t \in {"AES" \o n : n \in Size} : \E x \in AesSpelt, n \in Size : s = x \o n /\ t = "AES" \o n]
            @@ [s \in {x \o n : x \in HmacSpelt, n \in Size} |-> CHOOSE t \in {"HMAC" \o n : n \in Size} : \E x \in HmacSpelt, n \in Size : s = x \o n /\ t = "HMAC" \o n]
UpperName(s) == IF s \in DOMAIN Capitals THEN Capitals[s] ELSE s
HmacOf(t) == CASE t = "AES128" -> "HMAC128" [] t = "AES192" -> "HMAC192" [] t = "AES256" -> "HMAC256" [] OTHER -> t

(* the values an operation cannot do without *)
Needs(op, aes) ==
    CASE op = "ik" -> <<"ik.bdk", "ik.ksn">>
      [] op = "tk" -> <<"tk.ik", "tk.ksn">>
      [] op = "ep" -> <<"ep.tk", "ep.pin", "ep.pan", IF aes THEN "ep.ksn" ELSE "ep.format">>
      [] op = "dp" -> <<"dp.tk", "dp.pin", "dp.pan", IF aes THEN "dp.ksn" ELSE "dp.format">>
      [] op = "gm" -> <<"gm.tk", "gm.data">> \o (IF aes THEN <<"gm.ksn">> ELSE <<>>)
      [] op = "en" -> <<"en.tk", "en.iv", "en.data">> \o (IF aes THEN <<"en.ksn">> ELSE <<>>)
      [] op = "de" -> <<"de.tk", "de.iv", "de.data">> \o (IF aes THEN <<"de.ksn">> ELSE <<>>)

Complete(q, op) ==
    LET aes == Alg(q) = "aes"
        n == Needs(op, aes)
    IN  /\ \A i \in 1 .. Len(n) : Val(q, n[i]) # <<>>
        /\ op = "gm" => /\ Action(q) \in {"request", "response"}
                        /\ aes => MacOf(q) \in {"cmac", "hmac"}
        /\ aes => KeyName(q) # ""

Params(q, op) ==
    LET up == UpperName(KeyName(q))
        hmac == op = "gm" /\ Alg(q) = "aes" /\ MacOf(q) = "hmac"
        v(f) == Val(q, op \o "." \o f)
    IN  [alg |-> Alg(q), keytype |-> IF hmac THEN HmacOf(up) ELSE up,
         bdk |-> v("bdk"), ksn |-> v("ksn"), ik |-> v("ik"), tk |-> v("tk"),
         pin |-> v("pin"), pan |-> v("pan"), fmt |-> v("format"), mactype |-> MacOf(q),
         text |-> v("data"), ct |-> IF op = "dp" THEN v("pin") ELSE v("data"),
         action |-> Action(q), iv |-> v("iv")]

-----------------------------------------------------------------------------
(* An ending is [exit, said]: exit code and standard output *)
Prefix == <<82, 69, 83, 85, 76, 84, 58, 32>>
Result(out) == Prefix \o out \o <<10>>
Holds(said, p) == \E i \in 0 .. Len(said) - Len(p) : SubSeq(said, i + 1, i + Len(p)) = p
NoResult(e) == ~Holds(e.said, Prefix)
(* the text between prefix and line end *)
Told(said) == SubSeq(said, Len(Prefix) + 1, Len(said) - 1)
IsResult(said) == Len(said) > Len(Prefix) /\ said = Result(Told(said))

Right(q, e) ==
    IF ~q.known THEN e.exit # 0 /\ NoResult(e)
    ELSE IF q.version THEN e.exit = 0 /\ NoResult(e)
    ELSE IF Len(Selected(q)) = 0 THEN e.exit = 1 /\ NoResult(e)
    ELSE LET op == Head(Selected(q))
             known == Alg(q) \in {"des", "aes"}
         IN  IF ~known \/ ~Complete(q, op)
             THEN /\ NoResult(e)
                  /\ e.exit \in (IF ~Complete(q, op) THEN {1} ELSE {}) \cup (IF ~known THEN {2} ELSE {})
             ELSE IF e.exit = 0
                  THEN IsResult(e.said) /\ UAllowed(OpName[op], Params(q, op), Ok(Told(e.said)))
                  ELSE e.exit = 2 /\ NoResult(e) /\ UAllowed(OpName[op], Params(q, op), Err)
=============================================================================
