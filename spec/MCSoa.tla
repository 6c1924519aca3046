---------------------------------- MODULE MCSoa --------------------------------
(* The algebra the lane operations have to satisfy, on all small operands: a    *)
(* register machine of two quaternions and a vector, every lane alike.          *)
EXTENDS Soa, TLC
CONSTANTS R       \* components are in -R..R
VARIABLES a, b, c
vars == <<a, b, c>>
N == -R..R
Quats == {<<x, y, z, w>> : x \in N, y \in N, z \in N, w \in N}
Norm2(q) == Dot4(q, q)
Basis == {<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>, <<1,1,0,0>>, <<1,-1,1,1>>, <<0,1,1,-1>>}
Init == a \in Quats /\ b \in Quats /\ c \in Basis
Next == \/ a' = QMul(a, c) /\ b' = QMul(b, c) /\ UNCHANGED c /\ Norm2(a) <= 4 /\ Norm2(b) <= 4
        \/ a' = QConj(a) /\ b' = QAdd(b, a) /\ UNCHANGED c /\ Norm2(a) <= 4 /\ Norm2(b) <= 4
Spec == Init /\ [][Next]_vars
Multiplicative == Norm2(QMul(a, b)) = Norm2(a) * Norm2(b)
Associative == QMul(QMul(a, b), c) = QMul(a, QMul(b, c))
Distributive == QMul(a, QAdd(b, c)) = QAdd(QMul(a, b), QMul(a, c))
ConjReverses == QConj(QMul(a, b)) = QMul(QConj(b), QConj(a))
ConjInverts == QMul(a, QConj(a)) = <<0, 0, 0, Norm2(a)>>
DotIsReal == QDot(a, b) = QMul(a, QConj(b))[4]
Identity == QMul(a, QConst("IDENTITY")) = a /\ QMul(QConst("IDENTITY"), a) = a
Lerp == LET u == <<a[1], a[2], a[3]>> v == <<b[1], b[2], b[3]>> IN
        VLerp(u, v, 0) = u /\ VLerp(u, v, 1) = v /\ VSub(VLerp(u, v, 2), v) = VSub(v, u)
\* the columns of the matrix are the rotated axes (for unit quaternions, stored doubled)
Double(q) == IF Norm2(q) = 1 THEN QScale(q, 2) ELSE q
Columns == Norm2(a) \in {1, 4} =>
   LET h == Double(a) m == Affine(<<1, 2, 3>>, h, <<4, 8, 12>>) IN
   \A i \in 1..3 : LET ax == [j \in 1..3 |-> IF j = i THEN 1 ELSE 0] r == Rotated4(h, ax) IN
     \A j \in 1..3 : m[4 * (i - 1) + j] = r[j] * i
================================================================================
