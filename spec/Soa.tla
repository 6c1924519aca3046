----------------------------------- MODULE Soa ---------------------------------
(* SoA containers: four lanes, each a vector <<x, y, z>>, a quaternion          *)
(* <<x, y, z, w>> or a transform of ten numbers (translation, rotation, scale). *)
(* Every operation works lane by lane.                                          *)
EXTENDS Num
Lanes == 1..4
Each(Op(_)) == [k \in Lanes |-> Op(k)]
VNeg(a) == <<-a[1], -a[2], -a[3]>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == VAdd(a, VNeg(b))
VMul(a, f) == <<a[1] * f, a[2] * f, a[3] * f>>
VLerp(a, b, f) == VAdd(a, VMul(VSub(b, a), f))
VAll(f) == <<f, f, f>>
QConj(a) == <<-a[1], -a[2], -a[3], a[4]>>
QNeg(a) == <<-a[1], -a[2], -a[3], -a[4]>>
QAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
QScale(a, f) == <<a[1] * f, a[2] * f, a[3] * f, a[4] * f>>
\* Hamilton product
QMul(a, b) == <<a[4]*b[1] + a[1]*b[4] + a[2]*b[3] - a[3]*b[2],
                a[4]*b[2] + a[2]*b[4] + a[3]*b[1] - a[1]*b[3],
                a[4]*b[3] + a[3]*b[4] + a[1]*b[2] - a[2]*b[1],
                a[4]*b[4] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3]>>
QDot(a, b) == Dot4(a, b)
\* masks over numbers: 0 nothing, 1 everything, 2 the sign bit, 3 all but the sign bit
Mask1(how, x, m) ==
  CASE how = "and" -> (CASE m = 0 -> 0 [] m = 1 -> x [] m = 3 -> Abs(x) [] OTHER -> 0)
    [] how = "or" -> (IF m = 2 THEN -Abs(x) ELSE x)
    [] how = "xor" -> (IF m = 2 THEN -x ELSE x)
Masked(how, v, m) == [i \in 1..Len(v) |-> Mask1(how, v[i], m)]
VConst(n) == CASE n = "ZERO" -> <<0,0,0>> [] n = "ONE" -> <<1,1,1>> [] n = "NEG_ONE" -> <<-1,-1,-1>>
               [] n = "X" -> <<1,0,0>> [] n = "Y" -> <<0,1,0>> [] n = "Z" -> <<0,0,1>>
               [] n = "NEG_X" -> <<-1,0,0>> [] n = "NEG_Y" -> <<0,-1,0>> [] n = "NEG_Z" -> <<0,0,-1>>
QConst(n) == CASE n = "ZERO" -> <<0,0,0,0>> [] n = "IDENTITY" -> <<0,0,0,1>>
TConst(n) == CASE n = "ZERO" -> <<0,0,0,0,0,0,0,0,0,0>> [] n = "IDENTITY" -> <<0,0,0,0,0,0,1,1,1,1>>
\* matrix (by columns) of translation t, rotation h / 2 and scale s: column c is s[c] times the rotated axis
RotCol(h, c) ==
  LET x == h[1] y == h[2] z == h[3] w == h[4] IN
  CASE c = 1 -> <<2 - (y*y + z*z), x*y + z*w, x*z - y*w>>      \* times 1/2
    [] c = 2 -> <<x*y - z*w, 2 - (x*x + z*z), y*z + x*w>>
    [] c = 3 -> <<x*z + y*w, y*z - x*w, 2 - (x*x + y*y)>>
Affine(t, h, s) ==
  LET col(c) == LET r == RotCol(h, c) IN <<(r[1] * s[c]) \div 2, (r[2] * s[c]) \div 2, (r[3] * s[c]) \div 2, 0>>
  IN col(1) \o col(2) \o col(3) \o <<t[1], t[2], t[3], 1>>
\* rotating v by the unit quaternion h / 2 (times 4): h v h*
Rotated4(h, v) == LET r == QMul(QMul(h, <<v[1], v[2], v[3], 0>>), QConj(h)) IN <<r[1], r[2], r[3]>>
================================================================================
