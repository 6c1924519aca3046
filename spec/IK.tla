----------------------------------- MODULE IK ----------------------------------
(* What the corrections of the two inverse-kinematics jobs have to do to the    *)
(* joints.  Directions and lengths are in units of 1/8192, quaternions and      *)
(* weights of 1/4096; two-bone lengths are relative to the chain's length.      *)
EXTENDS Integers, Sequences
U == 8192
Abs3(x) == IF x < 0 THEN 0 - x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Dot(v, w) == v[1] * w[1] + v[2] * w[2] + v[3] * w[3]
\* cross product, back in 1/8192
Cross(v, w) == << (v[2] * w[3] - v[3] * w[2]) \div U, (v[3] * w[1] - v[1] * w[3]) \div U, (v[1] * w[2] - v[2] * w[1]) \div U >>
Sub3(v, w) == << v[1] - w[1], v[2] - w[2], v[3] - w[3] >>
Norm(v) == Max2(Abs3(v[1]), Max2(Abs3(v[2]), Abs3(v[3])))
Small(v, tol) == Norm(v) <= tol
\* two directions of some length are the same direction
Same(v, w) == /\ LET c == Cross(v, w) IN Norm(c) <= (Norm(v) * Norm(w)) \div (128 * U) + 3
              /\ Dot(v, w) > 0
\* v turned by the twist around the unit vector t it is normal to
Twisted(v, t, cs, sn) == LET x == Cross(t, v) IN << (cs * v[1] + sn * x[1]) \div U, (cs * v[2] + sn * x[2]) \div U, (cs * v[3] + sn * x[3]) \div U >>
\* squared lengths in millionths: when an axis may be accepted, when it may be refused
UnitAxis(x) == Abs3(x - 1000000) <= 3000
NoAxis(x) == Abs3(x - 1000000) >= 1000
-----------------------------------------------------------------------------
\* quaternions
Unit(q) == LET n == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4] IN Abs3(n - 16777216) <= 20000
Positive(q) == q[4] >= 0
Ident == <<0, 0, 0, 4096>>
\* the blend of no correction and the full one, not normalised (2^17 for length one)
Mix(f, w) == [i \in 1..4 |-> ((4096 - w) * Ident[i] + w * f[i]) \div 128]
Blended(c, f, w) == LET m == Mix(f, w) IN
   /\ \A i, j \in 1..4 : Abs3(c[i] * m[j] - c[j] * m[i]) \div 131072 <= 5
   /\ \A i \in 1..4 : Abs3(c[i]) > 60 /\ Abs3(m[i]) > 4000 => (c[i] > 0) = (m[i] > 0)
\* kind of weight: "none" (0 or less), "part", "full" (1 or more)
WeightOk(wk, w, c, f) == CASE wk = "full" -> \A i \in 1..4 : Abs3(c[i] - f[i]) <= 1
                           [] wk = "part" -> Blended(c, f, w)
                           [] OTHER -> c = Ident
Correction(q) == Unit(q) /\ Positive(q)
\* n = <<"lo", c / w>> for a weight next to zero: a w-th of the full correction's axis;
\* n = <<"hi", (c - f) / (1 - w)>> next to one: what leads from the full correction to none, tangentially
FineOk(n, f) ==
  CASE n[1] = "lo" -> \A i \in 1..3 : Abs3(n[2][i] - f[i]) <= 48
    [] n[1] = "hi" -> \A i \in 1..4 : Abs3(n[2][i] - (Ident[i] - (f[i] * f[4]) \div 4096)) <= 48
    [] OTHER -> TRUE
-----------------------------------------------------------------------------
(* Two bones a, b (a + b = 8192), target at distance d, softening from da on.   *)
Soft(d, da) ==
  LET ds == U - da IN
  IF d > da /\ ds > 0
  THEN LET r == (3 * ds * 16384) \div (d - da + 3 * ds)
           r2 == (r * r) \div 16384
           r4 == (r2 * r2) \div 16384
       IN da + ds - (ds * r4) \div 16384
  ELSE d
Diff(a, b) == Abs3(a - b)
\* how far from the start joint the end joint can be brought towards a target at d
EndAt(a, b, d, da) == Min2(U, Max2(Diff(a, b), Soft(d, da)))
Reachable(a, b, d, da) == d <= da /\ d > Diff(a, b)
ReachedOk(a, b, d, da, full, reached) ==
  IF ~full THEN ~reached
  ELSE \/ reached = Reachable(a, b, d, da)
       \/ Abs3(d - da) <= 3 \/ Abs3(d - Diff(a, b)) <= 3
\* with integers and a softening of s4 / 4: no doubt about any boundary
ReachedExact(x, full, reached) == reached = (full /\ 4 * x[3] <= x[4] * (x[1] + x[2]) /\ x[3] > Abs3(x[1] - x[2]))
-----------------------------------------------------------------------------
(* Aiming: the joint's axis passes at distance ac from it, the target is at r.  *)
AimReached(ac, r, reached) == reached = (ac <= r) \/ Abs3(ac - r) <= 3
================================================================================
