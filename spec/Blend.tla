--------------------------------- MODULE Blend ---------------------------------
(* Declarative blending of one joint.  Weights are integers over 256            *)
(* (layer weight over 16 times joint weight over 16).  A joint transform is a   *)
(* sequence of 10 integers: translation (1/16), quaternion (1/4096), scale      *)
(* (1/16).                                                                      *)
EXTENDS Num, TLC

\* a layer is [w, jw] with jw = <<>> when it has no joint weights
JointWeight(layer, j) == IF layer.w <= 0 THEN 0
                         ELSE layer.w * (IF layer.jw = <<>> THEN 16 ELSE Max(0, layer.jw[j]))
Weights(layers, j) == [i \in 1..Len(layers) |-> JointWeight(layers[i], j)]
\* the rest pose takes what the layers leave below the threshold
RestWeight(layers, j, th) == Max(0, th - SumSeq(Weights(layers, j)))
Total(layers, j, th) == SumSeq(Weights(layers, j)) + RestWeight(layers, j, th)

Zero4 == <<0, 0, 0, 0>>
Quat(x) == SubSeq(x, 4, 7)
\* dot of the running sum (over 256 * 4096) and a quaternion, scaled to fit
DotRun(acc, qt) == Dot4([i \in 1..4 |-> acc[i] \div 64], qt)
Ambiguous == 4096 * 16

\* running shortest-path sum over the weighted inputs xs = << <<weight, transform>>, ... >>
\* returns <<sum, decided>>: decided is FALSE once an input is (nearly) orthogonal to the sum
RECURSIVE RunSum(_, _, _)
RunSum(xs, acc, sure) ==
  IF xs = <<>> THEN <<acc, sure>>
  ELSE LET w == xs[1][1]
           qt == Quat(xs[1][2])
           d == DotRun(acc, qt)
           s == IF d < 0 THEN -1 ELSE 1
       IN IF w = 0 THEN RunSum(Tail(xs), acc, sure)
          ELSE RunSum(Tail(xs), [i \in 1..4 |-> acc[i] + s * w * qt[i]],
                      sure /\ (acc = Zero4 \/ Abs(d) > Ambiguous))

\* v is the direction of the running sum, up to the sign of the whole quaternion
RotBlendOk(v, xs, total) ==
  LET r == RunSum(xs, Zero4, TRUE)
      w == [i \in 1..4 |-> RDiv(r[1][i], total)]
      neg == [i \in 1..4 |-> -w[i]]
      m == Dot4(w, w)
  IN /\ SaneAll(v, 8192)
     /\ (~r[2] \/ m < 1024 * 1024) \/ (Unit4(v, 4096, 4) /\ (SameDir4(v, w, 4096 * 3) \/ SameDir4(v, neg, 4096 * 3)))

\* component i of the weighted mean of transforms, as observed in 1/256 units
MeanOk(v, xs, total, i) ==
  Sane(v, 30000) /\ IsFrac(v, 16 * SumSeq([k \in 1..Len(xs) |-> xs[k][1] * xs[k][2][i]]), total, 2)

JointOk(v, layers, poses, rest, j, th) ==
  LET xs == [i \in 1..Len(layers) |-> <<JointWeight(layers[i], j), poses[layers[i].p][j]>>]
            \o << <<RestWeight(layers, j, th), rest[j]>> >>
      total == Total(layers, j, th)
  IN /\ \A i \in {1, 2, 3, 8, 9, 10} : MeanOk(v[i], xs, total, i)
     /\ RotBlendOk(Quat(v), xs, total)

-----------------------------------------------------------------------------
(* Additive layers.  base and out are observed transforms (1/256, 1/4096,       *)
(* 1/256); x is the layer's transform (1/16, 1/4096, 1/16); a = |weight| * 256. *)

AddWeight(layer, j) == (IF layer.w < 0 THEN -layer.w ELSE layer.w) * (IF layer.jw = <<>> THEN 16 ELSE Max(0, layer.jw[j]))

\* identity moved towards the (positive w) quaternion by a / 256
TowardQ(qt, a) ==
  LET s == IF qt[4] < 0 THEN -1 ELSE 1
  IN << RDiv(s * a * qt[1], 256), RDiv(s * a * qt[2], 256), RDiv(s * a * qt[3], 256),
        RDiv(256 * 4096 + a * (s * qt[4] - 4096), 256) >>
Conj(qt) == <<-qt[1], -qt[2], -qt[3], qt[4]>>
HamRow(a, b) == << a[4]*b[1] + a[1]*b[4] + a[2]*b[3] - a[3]*b[2],
                   a[4]*b[2] - a[1]*b[3] + a[2]*b[4] + a[3]*b[1],
                   a[4]*b[3] + a[1]*b[2] - a[2]*b[1] + a[3]*b[4],
                   a[4]*b[4] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3] >>
Ham(a, b) == LET r == HamRow(a, b) IN [i \in 1..4 |-> RDiv(r[i], 4096)]

\* scale factor (1 - w) + w * s, over 4096
Factor(s16, a) == (256 - a) * 16 + a * s16

\* tiny: the weight is so much smaller, and the translation so much larger, that only the
\* translation moves
AddOk(out, base, x, aw, sub, tiny) ==
  LET a == IF tiny THEN 0 ELSE aw
      toward == TowardQ(Quat(x), a)
      dir == Ham(Quat(base), IF sub THEN Conj(toward) ELSE toward)
      neg == [i \in 1..4 |-> -dir[i]]
  IN /\ SaneAll(out, 60000) /\ SaneAll(base, 60000)
     /\ \A i \in 1..3 : IsFrac(out[i] - base[i], (IF sub THEN -1 ELSE 1) * aw * x[i], 16, 3)
     /\ Unit4(Quat(out), 4096, 6)
     /\ LET tol == 4096 * (IF a > 256 THEN 15 ELSE 5)
        IN SameDir4(Quat(out), dir, tol) \/ SameDir4(Quat(out), neg, tol)
     /\ \A i \in 8..10 : LET f == Factor(x[i], a) IN
          IF sub THEN Abs(out[i] * f - base[i] * 4096) <= 2 * Abs(f) + 2 * 4096
          ELSE Abs(out[i] * 4096 - base[i] * f) <= 2 * Abs(f) + 2 * 4096
================================================================================
