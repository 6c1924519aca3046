---------------------------------- MODULE Trig ---------------------------------
(* Sine, cosine and arc sine in 32-bit integer arithmetic: numbers are in units *)
(* of 2^-24, angles are <<i, f>> = i + f / 2^24 (i, f >= 0), pi / 2 has 36 bits *)
(* behind the point so that multiples of it up to 5300 are exact to 2^-23.      *)
EXTENDS Integers, Sequences
ABase == 4096
AOne == 16777216
TAbs(x) == IF x < 0 THEN -x ELSE x
\* a * b / 2^24, rounded, for |a|, |b| <= 2^26
AMul(a, b) ==
  LET A == TAbs(a) B == TAbs(b)
      ah == A \div ABase al == A % ABase bh == B \div ABase bl == B % ABase
      r == ah * bh + (ah * bl + al * bh + (al * bl) \div ABase + 2048) \div ABase
  IN IF (a < 0) = (b < 0) THEN r ELSE -r
ADiv(a, n) == IF a < 0 THEN -((-a + n \div 2) \div n) ELSE (a + n \div 2) \div n

\* pi / 2 - 1 in three digits of 12 bits, and pi / 2, pi / 4, pi rounded
D1 == 2337
D2 == 4021
D3 == 1092
HalfPi == 26353589
QuarterPi == 13176795
Pi == 52707179
\* x - q * pi / 2
Rest(x, q) ==
  LET m == q * D1 IN
  (x[1] - q - m \div ABase) * AOne + x[2] - (m % ABase) * ABase - q * D2 - (q * D3) \div ABase
\* the multiple of pi / 2 next to x (10430 / 16384 is slightly below 2 / pi)
Quadrant(x) ==
  LET q0 == (x[1] * 10430 + 8192) \div 16384
      Ok(q) == q >= 0 /\ TAbs(Rest(x, q)) <= QuarterPi + 8
  IN IF Ok(q0) THEN q0 ELSE IF Ok(q0 + 1) THEN q0 + 1 ELSE q0 - 1
\* series for |r| <= pi / 4
SinR(r) == LET z == AMul(r, r) IN
  AMul(r, AOne - ADiv(AMul(z, AOne - ADiv(AMul(z, AOne - ADiv(AMul(z, AOne - ADiv(z, 72)), 42)), 20)), 6))
CosR(r) == LET z == AMul(r, r) IN
  AOne - ADiv(AMul(z, AOne - ADiv(AMul(z, AOne - ADiv(AMul(z, AOne - ADiv(AMul(z, AOne - ADiv(z, 90)), 56)), 30)), 12)), 2)
Sin(x) == LET q == Quadrant(x) r == Rest(x, q) IN
  CASE q % 4 = 0 -> SinR(r) [] q % 4 = 1 -> CosR(r) [] q % 4 = 2 -> -SinR(r) [] q % 4 = 3 -> -CosR(r)
Cos(x) == LET q == Quadrant(x) r == Rest(x, q) IN
  CASE q % 4 = 0 -> CosR(r) [] q % 4 = 1 -> -SinR(r) [] q % 4 = 2 -> -CosR(r) [] q % 4 = 3 -> SinR(r)
Plus(x, h) == LET f == x[2] + h[2] IN <<x[1] + h[1] + f \div AOne, f % AOne>>
Angle(n) == <<n \div AOne, n % AOne>>   \* of n / 2^24

\* exact products of two numbers of at most 26 bits, as <<high, low>> in base 2^24
Exact(A, B) ==
  LET ah == A \div ABase al == A % ABase bh == B \div ABase bl == B % ABase
      mid == ah * bl + al * bh
      low == (mid % ABase) * ABase + al * bl
  IN <<ah * bh + mid \div ABase + low \div AOne, low % AOne>>
Leq(p, r) == p[1] < r[1] \/ (p[1] = r[1] /\ p[2] <= r[2])
\* a is the arc sine of y (|y| <= 1) up to tol units: the sine is y where the sine is steep, the cosine
\* is the root of 1 - y^2 where that is steep
AsinOk(y, a, tol) ==
  LET A == TAbs(a) Y == TAbs(y)
      c == Cos(Angle(A))
      rest == Exact(AOne - Y, AOne + Y)
  IN /\ A <= HalfPi + tol
     /\ (a > tol => y >= 0) /\ (a < -tol => y <= 0)
     /\ IF Y <= 11863283 THEN TAbs(Sin(Angle(A)) - Y) <= tol
        ELSE /\ (c > tol => Leq(Exact(c - tol, c - tol), rest))
             /\ Leq(rest, Exact(TAbs(c + tol), TAbs(c + tol)))
================================================================================
