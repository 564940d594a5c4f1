----------------------------- MODULE AesCipher -----------------------------
(***************************************************************************)
(* The Advanced Encryption Standard (FIPS 197): one 16-byte block under a  *)
(* key of 16, 24 or 32 bytes, written out in full.  When the class         *)
(* AesCipher is on TLC's class path it replaces AesEncBlock/AesDecBlock    *)
(* with the JDK's cipher; PrimSelfTest checks that the two agree.          *)
(***************************************************************************)
EXTENDS Bytes

LOCAL SBoxT == <<99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
      202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
      183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
      4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
      9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
      83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
      208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
      81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
      205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
      96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
      224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
      231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
      186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
      112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
      225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
      140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
LOCAL InvSBoxT == <<82, 9, 106, 213, 48, 54, 165, 56, 191, 64, 163, 158, 129, 243, 215, 251,
      124, 227, 57, 130, 155, 47, 255, 135, 52, 142, 67, 68, 196, 222, 233, 203,
      84, 123, 148, 50, 166, 194, 35, 61, 238, 76, 149, 11, 66, 250, 195, 78,
      8, 46, 161, 102, 40, 217, 36, 178, 118, 91, 162, 73, 109, 139, 209, 37,
      114, 248, 246, 100, 134, 104, 152, 22, 212, 164, 92, 204, 93, 101, 182, 146,
      108, 112, 72, 80, 253, 237, 185, 218, 94, 21, 70, 87, 167, 141, 157, 132,
      144, 216, 171, 0, 140, 188, 211, 10, 247, 228, 88, 5, 184, 179, 69, 6,
      208, 44, 30, 143, 202, 63, 15, 2, 193, 175, 189, 3, 1, 19, 138, 107,
      58, 145, 17, 65, 79, 103, 220, 234, 151, 242, 207, 206, 240, 180, 230, 115,
      150, 172, 116, 34, 231, 173, 53, 133, 226, 249, 55, 232, 28, 117, 223, 110,
      71, 241, 26, 113, 29, 41, 197, 137, 111, 183, 98, 14, 170, 24, 190, 27,
      252, 86, 62, 75, 198, 210, 121, 32, 154, 219, 192, 254, 120, 205, 90, 244,
      31, 221, 168, 51, 136, 7, 199, 49, 177, 18, 16, 89, 39, 128, 236, 95,
      96, 81, 127, 169, 25, 181, 74, 13, 45, 229, 122, 159, 147, 201, 156, 239,
      160, 224, 59, 77, 174, 42, 245, 176, 200, 235, 187, 60, 131, 83, 153, 97,
      23, 43, 4, 126, 186, 119, 214, 38, 225, 105, 20, 99, 85, 33, 12, 125>>

LOCAL XTime(b) == IF b < 128 THEN 2 * b ELSE (2 * b - 256) ^^ 27
LOCAL Mul(c, b) ==
    LET b2 == XTime(b)  b4 == XTime(b2)  b8 == XTime(b4) IN
    CASE c = 1 -> b
      [] c = 2 -> b2
      [] c = 3 -> b2 ^^ b
      [] c = 9 -> b8 ^^ b
      [] c = 11 -> (b8 ^^ b2) ^^ b
      [] c = 13 -> (b8 ^^ b4) ^^ b
      [] c = 14 -> (b8 ^^ b4) ^^ b2

LOCAL SubB(s, t) == TLCEval([i \in 1 .. Len(s) |-> t[s[i] + 1]])

(* Key expansion: a sequence of 4-byte words *)
RECURSIVE Expand(_, _, _, _)
LOCAL Expand(w, nk, total, rc) ==
    IF Len(w) = total THEN w
    ELSE LET i == Len(w)
             prev == w[i]
             t == IF i % nk = 0
                    THEN XorB(SubB(<<prev[2], prev[3], prev[4], prev[1]>>, SBoxT), <<rc, 0, 0, 0>>)
                    ELSE IF nk > 6 /\ i % nk = 4 THEN SubB(prev, SBoxT) ELSE prev
         IN  Expand(Append(w, XorB(w[i - nk + 1], t)), nk, total,
                    IF i % nk = 0 THEN XTime(rc) ELSE rc)

LOCAL RoundKeys(k) ==
    LET nk == Len(k) \div 4
        nr == nk + 6
        w == Expand([i \in 1 .. nk |-> SubSeq(k, 4 * i - 3, 4 * i)], nk, 4 * (nr + 1), 1)
    IN  TLCEval([r \in 1 .. nr + 1 |->
            w[4 * r - 3] \o w[4 * r - 2] \o w[4 * r - 1] \o w[4 * r]])

(* The state is column-major: byte i (0-based) is row i % 4, column i div 4 *)
LOCAL ShiftRows(s) == TLCEval([j \in 1 .. 16 |->
    LET r == (j - 1) % 4  c == (j - 1) \div 4 IN s[4 * ((c + r) % 4) + r + 1]])
LOCAL InvShiftRows(s) == TLCEval([j \in 1 .. 16 |->
    LET r == (j - 1) % 4  c == (j - 1) \div 4 IN s[4 * ((c + 4 - r) % 4) + r + 1]])
LOCAL Mix(s, m) == TLCEval([j \in 1 .. 16 |->
    LET r == (j - 1) % 4  o == 4 * ((j - 1) \div 4)
    IN  ((Mul(m[((4 - r) % 4) + 1], s[o + 1]) ^^ Mul(m[((5 - r) % 4) + 1], s[o + 2]))
          ^^ Mul(m[((6 - r) % 4) + 1], s[o + 3])) ^^ Mul(m[((7 - r) % 4) + 1], s[o + 4])])

RECURSIVE EncRounds(_, _, _)
LOCAL EncRounds(s, rk, r) ==
    LET t == ShiftRows(SubB(s, SBoxT)) IN
    IF r = Len(rk) THEN XorB(t, rk[r])
    ELSE EncRounds(XorB(Mix(t, <<2, 3, 1, 1>>), rk[r]), rk, r + 1)

RECURSIVE DecRounds(_, _, _)
LOCAL DecRounds(s, rk, r) ==
    LET t == XorB(SubB(InvShiftRows(s), InvSBoxT), rk[r]) IN
    IF r = 1 THEN t ELSE DecRounds(Mix(t, <<14, 11, 13, 9>>), rk, r - 1)

AesEncPure(k, b) == LET rk == RoundKeys(k) IN EncRounds(XorB(b, rk[1]), rk, 2)
AesDecPure(k, b) == LET rk == RoundKeys(k)
                    IN  DecRounds(XorB(b, rk[Len(rk)]), rk, Len(rk) - 1)

AesEncBlock(k, b) == AesEncPure(k, b)
AesDecBlock(k, b) == AesDecPure(k, b)
=============================================================================
