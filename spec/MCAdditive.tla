------------------------------- MODULE MCAdditive ------------------------------
(* The additive stage of the blending job at the grain of its loops: for every  *)
(* layer one of three branches (add, subtract, nothing), for every joint one    *)
(* pass with the joint's weight.                                                *)
EXTENDS Additive, TLC, Json, IOUtils, SequencesExt
CONSTANTS LMAX
NC == Len(Catalogue)
VARIABLES ys,     \* the layers
          k, j,   \* layer and joint being processed
          pose,   \* the output buffer
          hist    \* what it held before each layer
vars == <<ys, k, j, pose, hist>>
Init == /\ \E n \in 0..LMAX : ys \in [1..n -> 1..NC]
        /\ k = 1 /\ j = 1 /\ pose = Bases /\ hist = <<Bases>>
Y == Catalogue[ys[k]]
Weight == AbsOf(Y.w) * (IF Y.jw = <<>> THEN 4 ELSE MaxOf(Y.jw[j], 0))
Pass(sub) ==
  LET p == pose[j]
      w == Weight
      pos == IF Y.q[4] < 0 THEN Neg(Y.q) ELSE Y.q
      \* w * x + (1 - w) * identity; exact by the choice of layers
      lerp == IF w = 0 THEN Id ELSE IF w = 16 THEN pos ELSE Id
      rot == IF sub THEN Inv(lerp) ELSE lerp
  IN pose' = [pose EXCEPT ![j] =
       [t |-> [i \in 1..3 |-> IF sub THEN p.t[i] - (w * Y.t[i]) \div 16 ELSE p.t[i] + (w * Y.t[i]) \div 16],
        q |-> Mul(p.q, rot),
        e |-> [i \in 1..3 |-> IF sub THEN p.e[i] - LogOf(Factor(Y.s[i], w)) ELSE p.e[i] + LogOf(Factor(Y.s[i], w))]]]
Joint == /\ k <= Len(ys) /\ Y.w # 0 /\ j <= 2
         /\ Pass(Y.w < 0)
         /\ j' = j + 1 /\ UNCHANGED <<ys, k, hist>>
NextLayer == /\ k <= Len(ys) /\ (Y.w = 0 \/ j = 3)
             /\ k' = k + 1 /\ j' = 1 /\ hist' = Append(hist, pose) /\ UNCHANGED <<ys, pose>>
Next == Joint \/ NextLayer
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Unit(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4] = 4
Rotations == \A x \in 1..2 : Unit(pose[x].q)
\* every prefix of the layers has its declared effect, and only on the joints it weights
Composes == j = 1 => \A x \in 1..2 : Same(pose[x], Fold(Bases[x], SubSeq(ys, 1, k - 1), x))
Untouched == \A n \in 1..(Len(hist) - 1) : \A x \in 1..2 :
   Eff(Catalogue[ys[n]], x) = 0 => hist[n + 1][x] = hist[n][x]
\* subtracting what was just added (or adding what was just subtracted) restores the pose
Opposite(a, b) == [a EXCEPT !.w = -a.w] = b
Restores == \A n \in 2..(Len(hist) - 1) :
   Opposite(Catalogue[ys[n - 1]], Catalogue[ys[n]]) => \A x \in 1..2 : Same(hist[n + 1][x], hist[n - 1][x])
\* translation and scale do not depend on the order of the layers
Commutes == k > Len(ys) => \A x \in 1..2 :
   LET r == Fold(Bases[x], Reverse(ys), x) IN r.t = pose[x].t /\ r.e = pose[x].e
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN,
  [catalogue |-> Catalogue, bases |-> Bases,
   runs |-> SetToSeq(UNION { [1..n -> 1..NC] : n \in 0..LMAX })])
PlanSpec == (Init /\ ys = <<>>) /\ [][FALSE]_vars
================================================================================
