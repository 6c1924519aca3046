--------------------------------- MODULE MCTrig --------------------------------
(* The reference functions themselves: an angle that moves in fixed steps, with *)
(* the addition theorem as the transition law.  The visited angles are the ones *)
(* the implementation is asked for.                                             *)
EXTENDS Trig, TLC, IOUtils
CONSTANTS Depth, Far
VARIABLES x, n
vars == <<x, n>>
\* k * pi / 4, near enough
Turn(k) == LET m == (k \div 2) * D1 r == m % ABase IN
  LET whole == Plus(<<k \div 2 + m \div ABase, 0>>, Angle(r * ABase + (k \div 2) * D2 + ((k \div 2) * D3) \div ABase))
  IN IF k % 2 = 1 THEN Plus(whole, Angle(QuarterPi)) ELSE whole
Steps == {<<0, 1>>, <<0, 65537>>, <<0, 11184811>>, Angle(QuarterPi), Angle(HalfPi), <<2, 9000011>>}
Starts == {Turn(k) : k \in 0..24 \cup {Far, 2 * Far + 1, 4 * Far + 3}} \cup {<<0, 2 ^ k>> : k \in 0..23} \cup {<<2 ^ k, 0>> : k \in 0..12}
Init == x \in Starts /\ n = 0
Next == \E h \in Steps : n < Depth /\ n' = n + 1 /\ x' = Plus(x, h)
Spec == Init /\ [][Next]_vars
Close(a, b, tol) == TAbs(a - b) <= tol
Circle == Close(AMul(Sin(x), Sin(x)) + AMul(Cos(x), Cos(x)), AOne, 8) /\ TAbs(Sin(x)) <= AOne + 3 /\ TAbs(Cos(x)) <= AOne + 3
Reduced == Quadrant(x) >= 0 /\ TAbs(Rest(x, Quadrant(x))) <= QuarterPi + 8
Double == LET d == Plus(x, x) IN d[1] <= 8192 =>
  Close(Sin(d), 2 * AMul(Sin(x), Cos(x)), 12) /\ Close(Cos(d), AOne - 2 * AMul(Sin(x), Sin(x)), 12)
\* the arc sine of the sine of a reduced angle is that angle, and nothing much else
R == LET q == Quadrant(x) IN Rest(x, q)
Inverse == /\ AsinOk(Sin(Angle(TAbs(R))), TAbs(R), 6)
           /\ AsinOk(-Sin(Angle(TAbs(R))), -TAbs(R), 6)
           /\ ~AsinOk(Sin(Angle(TAbs(R))), TAbs(R) + 40, 6)
           /\ LET c == HalfPi - TAbs(R) IN AsinOk(Cos(Angle(TAbs(R))), c, 6) \/ TAbs(R) < 4194304
Known == Sin(<<0, 0>>) = 0 /\ Cos(<<0, 0>>) = AOne /\ Close(Sin(Angle(HalfPi)), AOne, 1) /\ Close(Sin(Angle(HalfPi \div 3)), AOne \div 2, 2)
         /\ Close(Cos(<<1, 0>>), 9064769, 2) /\ Close(Sin(<<1, 0>>), 14117540, 2) /\ Close(Sin(<<4096, 0>>), -9976437, 3)
Addition == \A h \in Steps : LET y == Plus(x, h) IN
  /\ Close(Sin(y), AMul(Sin(x), Cos(h)) + AMul(Cos(x), Sin(h)), 8)
  /\ Close(Cos(y), AMul(Cos(x), Cos(h)) - AMul(Sin(x), Sin(h)), 8)
PrintEdge == PrintT("EDGE " \o ToString(x'[1]) \o "|" \o ToString(x'[2]))
================================================================================
