------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4) and HMAC-SHA-256 (FIPS 198-1).  A 32-bit word is a *)
(* pair <<high half, low half>>, because TLC's integers have 31 bits and a *)
(* sign.  When the class Sha256 is on TLC's class path it replaces Sha256  *)
(* (not HMAC) with the JDK's digest; PrimSelfTest checks that they agree.  *)
(***************************************************************************)
EXTENDS Bytes

LOCAL KT == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>,
      <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
      <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>,
      <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
      <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
      <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
      <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>,
      <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
      <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>,
      <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
      <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
LOCAL H0 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>,
      <<8067, 55723>>, <<23520, 52505>>>>

LOCAL Add(a, b) == LET lo == a[2] + b[2]
                   IN  <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
LOCAL Xw(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL Aw(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL Nw(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL ShrW(a, n) == IF n >= 16 THEN <<0, a[1] \div 2 ^ (n - 16)>>
    ELSE <<a[1] \div 2 ^ n, (a[1] % 2 ^ n) * 2 ^ (16 - n) + a[2] \div 2 ^ n>>
LOCAL RotW(a, n) ==
    LET s == IF n >= 16 THEN <<a[2], a[1]>> ELSE a
        m == n % 16
    IN  IF m = 0 THEN s
        ELSE <<s[1] \div 2 ^ m + (s[2] % 2 ^ m) * 2 ^ (16 - m),
               s[2] \div 2 ^ m + (s[1] % 2 ^ m) * 2 ^ (16 - m)>>
LOCAL BSig0(x) == Xw(Xw(RotW(x, 2), RotW(x, 13)), RotW(x, 22))
LOCAL BSig1(x) == Xw(Xw(RotW(x, 6), RotW(x, 11)), RotW(x, 25))
LOCAL SSig0(x) == Xw(Xw(RotW(x, 7), RotW(x, 18)), ShrW(x, 3))
LOCAL SSig1(x) == Xw(Xw(RotW(x, 17), RotW(x, 19)), ShrW(x, 10))
LOCAL Ch(x, y, z) == Xw(Aw(x, y), Aw(Nw(x), z))
LOCAL Maj(x, y, z) == Xw(Xw(Aw(x, y), Aw(x, z)), Aw(y, z))

LOCAL BlockWords(b) == TLCEval([i \in 1 .. 16 |->
    <<256 * b[4 * i - 3] + b[4 * i - 2], 256 * b[4 * i - 1] + b[4 * i]>>])
RECURSIVE Sched(_)
LOCAL Sched(w) ==
    IF Len(w) = 64 THEN w
    ELSE LET t == Len(w) + 1
             n == TLCEval(Append(w, Add(Add(SSig1(w[t - 2]), w[t - 7]), Add(SSig0(w[t - 15]), w[t - 16]))))
         IN  IF n = <<>> THEN <<>> ELSE Sched(n)
RECURSIVE Comp(_, _, _)
LOCAL Comp(s, w, t) ==
    IF t > 64 THEN s
    ELSE LET t1 == Add(Add(Add(s[8], BSig1(s[5])), Add(Ch(s[5], s[6], s[7]), KT[t])), w[t])
             t2 == Add(BSig0(s[1]), Maj(s[1], s[2], s[3]))
             n == TLCEval(<<Add(t1, t2), s[1], s[2], s[3], Add(s[4], t1), s[5], s[6], s[7]>>)
         IN  IF n = <<>> THEN <<>> ELSE Comp(n, w, t + 1)   \* the test makes TLC evaluate n now
RECURSIVE Blocks(_, _, _)
LOCAL Blocks(h, m, i) ==
    IF i > NumBlocks(m, 64) THEN h
    ELSE LET c == Comp(h, Sched(BlockWords(Block(m, 64, i))), 1)
         IN  Blocks(TLCEval([j \in 1 .. 8 |-> Add(h[j], c[j])]), m, i + 1)
LOCAL PadSha(m) ==
    LET l == 8 * Len(m)
        z == (119 - (Len(m) % 64)) % 64
    IN  m \o <<128>> \o Zeros(z) \o Zeros(4)
          \o <<l \div 16777216, (l \div 65536) % 256, (l \div 256) % 256, l % 256>>

Sha256Pure(m) ==
    LET h == Blocks(H0, PadSha(m), 1)
    IN  TLCEval([i \in 1 .. 32 |->
          LET w == h[((i - 1) \div 4) + 1] IN
          CASE (i - 1) % 4 = 0 -> w[1] \div 256
            [] (i - 1) % 4 = 1 -> w[1] % 256
            [] (i - 1) % 4 = 2 -> w[2] \div 256
            [] (i - 1) % 4 = 3 -> w[2] % 256])

Sha256(m) == Sha256Pure(m)

HmacSha256(key, m) ==
    LET k == Fit(IF Len(key) > 64 THEN Sha256(key) ELSE key, 64)
    IN  Sha256(XorB(k, Fill(64, 92)) \o Sha256(XorB(k, Fill(64, 54)) \o m))
=============================================================================
