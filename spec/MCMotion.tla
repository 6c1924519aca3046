-------------------------------- MODULE MCMotion -------------------------------
(* Motion blending at the grain of its loop: layers that count add their weight,*)
(* their weighted length, their weighted direction and their rotation, turned   *)
(* to the side of what was accumulated so far.  Directions are in fifths and    *)
(* rotations doubled Hurwitz units, so that the sums are exact.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS LMAX, WEIGHTS
Wq == {-1, 0, 1, 2}
Wt == {0, 1, 2}
\* translation (integers), its length
Ts == << [t |-> <<0, 0, 0>>, len |-> 0], [t |-> <<5, 0, 0>>, len |-> 5], [t |-> <<-5, 0, 0>>, len |-> 5],
         [t |-> <<3, 4, 0>>, len |-> 5], [t |-> <<0, 0, 1>>, len |-> 1] >>
Qs == << <<0, 0, 0, 2>>, <<1, 1, 1, 1>>, <<-1, -1, -1, -1>>, <<1, -1, -1, 1>> >>
Layers == [w : WEIGHTS, t : 1..Len(Ts), q : 1..Len(Qs)]
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
Zero == [acc |-> 0, dl |-> 0, dt |-> <<0, 0, 0>>, dr |-> <<0, 0, 0, 0>>]

VARIABLES ls, k, a
vars == <<ls, k, a>>
Init == ls \in UNION { [1..n -> Layers] : n \in 0..LMAX } /\ k = 1 /\ a = Zero
\* direction in fifths
Dir5(x) == IF x.len = 0 THEN <<0, 0, 0>> ELSE [c \in 1..3 |-> (x.t[c] * 5) \div x.len]
Add(s, y) ==
  IF y.w <= 0 THEN s
  ELSE LET x == Ts[y.t]
           q == Qs[y.q]
           sg == IF Dot(s.dr, q) >= 0 THEN y.w ELSE -y.w
       IN [acc |-> s.acc + y.w, dl |-> s.dl + y.w * x.len,
           dt |-> [c \in 1..3 |-> s.dt[c] + y.w * Dir5(x)[c]],
           dr |-> [c \in 1..4 |-> s.dr[c] + sg * q[c]]]
Step == k <= Len(ls) /\ a' = Add(a, ls[k]) /\ k' = k + 1 /\ UNCHANGED ls
Next == Step
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE Fold(_, _)
Fold(s, y) == IF y = <<>> THEN s ELSE Fold(Add(s, Head(y)), Tail(y))
Active == SelectSeq(SubSeq(ls, 1, k - 1), LAMBDA y : y.w > 0)
\* layers without weight do not exist
Ignored == a = Fold(Zero, Active)
\* the blended length lies between the lengths, and the accumulated rotation cannot vanish
Between == Active # <<>> =>
  /\ \E i \in 1..Len(Active) : a.dl <= Ts[Active[i].t].len * a.acc
  /\ \E i \in 1..Len(Active) : a.dl >= Ts[Active[i].t].len * a.acc
  /\ Dot(a.dr, a.dr) >= 4
Nothing == Active = <<>> => a = Zero
\* translation does not depend on the order
Order == LET b == Fold(Zero, Reverse(Active)) IN b.acc = a.acc /\ b.dl = a.dl /\ b.dt = a.dt
\* only ratios of weights matter
Scaled == LET b == Fold(Zero, [i \in 1..Len(Active) |-> [Active[i] EXCEPT !.w = 2 * @]])
          IN b = [acc |-> 2 * a.acc, dl |-> 2 * a.dl, dt |-> [c \in 1..3 |-> 2 * a.dt[c]], dr |-> [c \in 1..4 |-> 2 * a.dr[c]]]
\* one layer comes back as it is
Single == Len(Active) = 1 => a.dl = Ts[Active[1].t].len * a.acc /\ a.dt = [c \in 1..3 |-> a.acc * Dir5(Ts[Active[1].t])[c]]
          /\ a.dr = [c \in 1..4 |-> a.acc * Qs[Active[1].q][c]]
-----------------------------------------------------------------------------
Counts == SetToSeq(Layers)
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN, [layers |-> Counts, ts |-> Ts, qs |-> Qs])
PlanSpec == (Init /\ ls = <<>>) /\ [][FALSE]_vars
================================================================================
