--------------------------------- MODULE Keys ----------------------------------
(* What compressed keys mean.  A half is 16 bits; a single is given by its two  *)
(* 16-bit halves <<hi, lo>>.  A rotation key is three 16-bit words.             *)
EXTENDS Integers, Sequences

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32
             [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256 [] k = 9 -> 512 [] k = 10 -> 1024
             [] k = 11 -> 2048 [] k = 12 -> 4096 [] k = 13 -> 8192 [] k = 14 -> 16384 [] OTHER -> 32768
Sign(h) == h \div 32768
Expo(h) == (h \div 1024) % 32
Mant(h) == h % 1024
IsNaNHalf(h) == Expo(h) = 31 /\ Mant(h) # 0
IsInfHalf(h) == Expo(h) = 31 /\ Mant(h) = 0
FiniteHalf(h) == Expo(h) # 31
ZeroHalf(h) == h % 32768 = 0
TopBit(m) == CHOOSE k \in 0..9 : Pow2(k) <= m /\ m < Pow2(k + 1)
NaNBits == <<32704, 0>>
\* the single with the same value
Single(h) ==
  CASE IsNaNHalf(h) -> NaNBits
    [] IsInfHalf(h) -> <<32768 * Sign(h) + 32640, 0>>
    [] ZeroHalf(h) -> <<32768 * Sign(h), 0>>
    [] Expo(h) # 0 /\ Expo(h) # 31 -> <<32768 * Sign(h) + (Expo(h) + 112) * 128 + Mant(h) \div 8, (Mant(h) % 8) * 8192>>
    [] OTHER -> LET k == TopBit(Mant(h))             \* mant = 2^k + rest, value mant * 2^-24
                    e == k + 103                     \* biased exponent of 2^(k - 24)
                    f == (Mant(h) - Pow2(k)) * Pow2(10 - k)  \* ten leading fraction bits
                IN <<32768 * Sign(h) + e * 128 + f \div 8, (f % 8) * 8192>>
NonFinite(b) == (b[1] % 32768) >= 32640
ZeroBits(b) == b[1] \in {0, 32768} /\ b[2] = 0
\* interpolation may drop the sign of a zero and turns an infinity into some non-finite value
SampledOk(h, b) == CASE ~FiniteHalf(h) -> NonFinite(b)
                     [] ZeroHalf(h) -> ZeroBits(b)
                     [] OTHER -> b = Single(h)
-----------------------------------------------------------------------------
(* Rotation keys.  48 bits: 2 of the largest component's index, 1 of its sign,  *)
(* then three 15-bit values of the others in increasing order.  A value v means *)
(* (2 v - 32767) / (sqrt 2 * 32767); in that unit a unit quaternion has squared *)
(* length 2 * 32767^2.                                                          *)
Largest(k) == k[1] % 4
QSign(k) == (k[1] \div 4) % 2
Val(k, i) == CASE i = 1 -> (k[1] \div 8) + (k[2] % 4) * 8192
               [] i = 2 -> (k[2] \div 4) + (k[3] % 2) * 16384
               [] OTHER -> k[3] \div 2
N(k, i) == 2 * Val(k, i) - 32767
Full == 2147352578
\* squared largest component; negative when the stored ones already exceed unit length
W2(k) == (Full - N(k, 1) * N(k, 1) - N(k, 2) * N(k, 2)) - N(k, 3) * N(k, 3)
\* which stored value is component c (0..3)
Slot(k, c) == IF c < Largest(k) THEN c + 1 ELSE c
AbsK(x) == IF x < 0 THEN 0 - x ELSE x
\* observed components in 1/64 of a step
StoredOk(k, o, tol) == \A c \in 0..3 : c = Largest(k) \/ AbsK(o[c + 1] - 64 * N(k, Slot(k, c))) <= tol
LargestOk(k, o) ==
  LET x == o[Largest(k) + 1]
      a == (AbsK(x) + 32) \div 64
      w2 == IF W2(k) < 0 THEN 0 ELSE W2(k)
  IN /\ a <= 46340
     /\ AbsK(a * a - w2) <= a + 5000
     /\ a > 100 => (x < 0) = (QSign(k) = 1)
Unsound(k) == W2(k) < 0
QuatOk(k, o) == StoredOk(k, o, 2) /\ LargestOk(k, o)
\* sampling normalises: nothing is promised for keys longer than a unit quaternion but that the result is a number
QuatSampledOk(k, o) == IF W2(k) < 0 THEN \A c \in 1..4 : AbsK(o[c]) <= 4000000
                       ELSE StoredOk(k, o, 4) /\ LargestOk(k, o)
================================================================================
