-------------------------------- MODULE Additive -------------------------------
(* Additive layers in exact arithmetic.  A transform of one joint is            *)
(* [t, q, e]: translation in quarters, a rotation from the 24 Hurwitz units     *)
(* (components doubled: +-2 once or +-1 four times) and per axis the exponent   *)
(* of a scale that is a power of two.                                           *)
(* A layer is [t, q, s, w, jw]: s the scale in halves, w the weight and jw the  *)
(* joint weights (of the two joints) in quarters, jw = <<>> when it has none.   *)
(* Layers are chosen so that everything stays exact: a layer that rotates has   *)
(* effective weight 0 or 1, and every scale factor is a power of two.           *)
EXTENDS Integers, Sequences, FiniteSets

Id == <<0, 0, 0, 2>>
L(t, q, s, w, jw) == [t |-> t, q |-> q, s |-> s, w |-> w, jw |-> jw]
Catalogue == <<
  L(<<4, -8, 2>>,   <<1, 1, 1, 1>>,    <<2, 4, 1>>,   4,  <<>>),
  L(<<4, -8, 2>>,   <<1, 1, 1, 1>>,    <<2, 4, 1>>,   -4, <<>>),
  L(<<-4, 4, 16>>,  <<1, -1, 1, -1>>,  <<4, 2, 8>>,   4,  <<4, 0>>),
  L(<<-4, 4, 16>>,  <<1, -1, 1, -1>>,  <<4, 2, 8>>,   -4, <<4, 0>>),
  L(<<8, 0, -16>>,  <<0, 0, 0, 2>>,    <<6, 2, 14>>,  2,  <<>>),
  L(<<8, 0, -16>>,  <<0, 0, 0, -2>>,   <<6, 2, 14>>,  -2, <<4, -4>>),
  L(<<16, 8, -8>>,  <<0, 0, 0, -2>>,   <<10, 2, 2>>,  2,  <<2, 0>>),
  L(<<0, 12, 4>>,   <<-1, 1, 1, -1>>,  <<1, 1, 1>>,   -4, <<0, 4>>),
  L(<<12, 12, 12>>, <<1, 1, -1, 1>>,   <<8, 8, 8>>,   0,  <<4, 4>>),
  L(<<12, 4, -12>>, <<-1, -1, 1, 1>>,  <<8, 1, 4>>,   4,  <<-4, 4>>),
  L(<<4, -2, 8>>,   <<0, 0, 0, 2>>,    <<3, 2, 5>>,   8,  <<>>),
  L(<<4, -2, 8>>,   <<0, 0, 0, 2>>,    <<3, 2, 5>>,   -4, <<8, 0>>) >>
Bases == << [t |-> <<4, -12, 20>>, q |-> <<1, -1, 1, 1>>, e |-> <<0, 1, -1>>],
            [t |-> <<0, 8, -4>>, q |-> <<0, 0, 2, 0>>, e |-> <<1, 0, 2>>] >>

MaxOf(a, b) == IF a > b THEN a ELSE b
AbsOf(a) == IF a < 0 THEN -a ELSE a
\* what the layer counts for joint j, in sixteenths
Eff(y, j) == AbsOf(y.w) * (IF y.jw = <<>> THEN 4 ELSE MaxOf(0, y.jw[j]))

\* product of rotations, halved once to stay doubled
Mul(a, b) == LET r == << a[4]*b[1] + a[1]*b[4] + a[2]*b[3] - a[3]*b[2],
                         a[4]*b[2] - a[1]*b[3] + a[2]*b[4] + a[3]*b[1],
                         a[4]*b[3] + a[1]*b[2] - a[2]*b[1] + a[3]*b[4],
                         a[4]*b[4] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3] >>
             IN [i \in 1..4 |-> r[i] \div 2]
Inv(q) == <<-q[1], -q[2], -q[3], q[4]>>
Neg(q) == <<-q[1], -q[2], -q[3], -q[4]>>
Pow2(n) == 2 ^ n
\* exponent of the factor (1 - a) + a s, which is f / 32
Factor(s, a) == (16 - a) * 2 + a * s
IsPow(f) == \E x \in -4..4 : f * 16 = 32 * Pow2(x + 4)
LogOf(f) == CHOOSE x \in -4..4 : f * 16 = 32 * Pow2(x + 4)

Exact(y) == \A j \in 1..2 : LET a == Eff(y, j) IN
  /\ a \in {0, 16} \/ y.q \in {Id, Neg(Id)}
  /\ \A i \in 1..3 : IsPow(Factor(y.s[i], a)) /\ (a * y.t[i]) % 16 = 0
ASSUME \A k \in 1..Len(Catalogue) : Exact(Catalogue[k])
ASSUME \A k \in 1..Len(Catalogue) : \A x \in 1..4 : Catalogue[k].q[4] # 0

\* the layer's rotation at its effective weight: identity, or itself with a positive w
Turn(y, j) == IF Eff(y, j) = 0 THEN Id ELSE IF y.q[4] < 0 THEN Neg(y.q) ELSE y.q

\* what one layer does to joint j
Apply(p, y, j) ==
  LET a == Eff(y, j)
      sg == IF y.w < 0 THEN -1 ELSE 1
      r == Turn(y, j)
  IN [t |-> [i \in 1..3 |-> p.t[i] + sg * ((a * y.t[i]) \div 16)],
      q |-> Mul(p.q, IF y.w < 0 THEN Inv(r) ELSE r),
      e |-> [i \in 1..3 |-> p.e[i] + sg * LogOf(Factor(y.s[i], a))]]
RECURSIVE Fold(_, _, _)
Fold(p, ys, j) == IF ys = <<>> THEN p ELSE Fold(Apply(p, Catalogue[Head(ys)], j), Tail(ys), j)
Same(a, b) == a.t = b.t /\ a.e = b.e /\ (a.q = b.q \/ a.q = Neg(b.q))
================================================================================
