---------------------------- MODULE PrimSelfTest ----------------------------
(***************************************************************************)
(* The trusted primitives: known answers from the standards for the TLA+   *)
(* definitions, and agreement of the Java replacements with them.          *)
(***************************************************************************)
EXTENDS DesCipher, AesCipher, Sha256, FiniteSets, TLCExt

Pat(n, a, b) == [i \in 1 .. n |-> (a * i + b * i * i + ((a * b) % 251)) % 256]

ASSUME DesEncPure(<<19, 52, 87, 121, 155, 188, 223, 241>>, <<1, 35, 69, 103, 137, 171, 205, 239>>)
         = <<133, 232, 19, 84, 15, 10, 180, 5>>
(* FIPS 197 appendix C *)
Ramp(n) == [i \in 1 .. n |-> i - 1]
Diag == [i \in 1 .. 16 |-> 17 * (i - 1)]
ASSUME AesEncPure(Ramp(16), Diag) = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME AesEncPure(Ramp(24), Diag) = <<221, 169, 124, 164, 134, 76, 223, 224, 110, 175, 112, 160, 236, 13, 113, 145>>
ASSUME AesEncPure(Ramp(32), Diag) = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
(* FIPS 180: "abc" *)
ASSUME Sha256Pure(<<97, 98, 99>>) = <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35,
                                      176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>
(* RFC 4231 test case 2 *)
ASSUME HmacSha256(<<74, 101, 102, 101>>,
         <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97, 32, 119, 97, 110, 116, 32,
           102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>)
       = <<91, 220, 193, 70, 191, 96, 117, 78, 106, 4, 36, 38, 8, 149, 117, 199,
           90, 0, 63, 8, 157, 39, 57, 131, 157, 236, 88, 185, 100, 236, 56, 67>>

CONSTANT N
VARIABLES i, ok
Init == i \in 1 .. N /\ ok = "start"
Next ==
    /\ ok = "start"
    /\ i' = i
    /\ LET k8 == Pat(8, 7 * i + 3, i % 13)
           b8 == Pat(8, 11 * i + 1, i % 17)
           ks == CASE i % 3 = 0 -> 16 [] i % 3 = 1 -> 24 [] i % 3 = 2 -> 32
           k == Pat(ks, 5 * i + 1, i % 29)
           b == Pat(16, 3 * i + 2, i % 31)
           m == Pat(i % 200, 13 * i, i % 7)
       IN  ok' = IF /\ DesEncBlock(k8, b8) = DesEncPure(k8, b8)
                    /\ DesDecBlock(k8, b8) = DesDecPure(k8, b8)
                    /\ DesDecPure(k8, DesEncPure(k8, b8)) = b8
                    /\ AesEncBlock(k, b) = AesEncPure(k, b)
                    /\ AesDecBlock(k, b) = AesDecPure(k, b)
                    /\ AesDecPure(k, AesEncPure(k, b)) = b
                    /\ Sha256(m) = Sha256Pure(m)
                 THEN "agree" ELSE "differ"
Agree == ok # "differ"
=============================================================================
