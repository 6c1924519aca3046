---------------------------------- MODULE Num ----------------------------------
(* Quantised reals.  The recorder projects every observed real onto integer     *)
(* multiples of a unit; the predicates below compare such numbers within a      *)
(* tolerance, and reject the recorder's sentinels (NaN, out of range) before    *)
(* any arithmetic is done on them.                                              *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == Max(lo, Min(x, hi))

\* a sane observed number (|v| small enough that the arithmetic below cannot overflow)
Sane(v, lim) == -lim <= v /\ v <= lim
SaneAll(s, lim) == \A i \in DOMAIN s : Sane(s[i], lim)

Near(a, b, tol) == Abs(a - b) <= tol
NearAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* rounding division (denominator positive)
RDiv(n, d) == (2 * n + d) \div (2 * d)

\* v is, within tol units, the number n/d  (d > 0)
IsFrac(v, n, d, tol) == Abs(v * d - n) <= tol * d

Dot4(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]

\* the 4-vector v (components within +-L) is a unit vector in units u, within tol units
Unit4(v, u, tol) == SaneAll(v, 2 * u) /\ Abs(Dot4(v, v) - u * u) <= 2 * u * tol

\* v is parallel to w and points the same way: |v x w| small.  tol bounds the error of each
\* 2x2 minor; both vectors must be sane.
SameDir4(v, w, tol) ==
  /\ \A i \in 1..4 : \A j \in 1..4 : i < j => Abs(v[i] * w[j] - v[j] * w[i]) <= tol
  /\ Dot4(v, w) > 0
================================================================================
