-------------------------------- MODULE Documents ------------------------------
(* What a serialized object says of itself: a count and arrays with a length     *)
(* (and, in an archive of bytes, a place).  Only some of what can be said fits    *)
(* together.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets

Up(x, d) == (x + d - 1) \div d
\* the lengths of the arrays of an object of n, in the order of Names
Names(kind) ==
  IF kind = "context" THEN <<"translations", "rotations", "scales", "translation_entries", "rotation_entries",
                             "scale_entries", "translation_outdated", "rotation_outdated", "scale_outdated">>
  ELSE IF kind = "skeleton" THEN <<"joint_parents", "joint_rest_poses">>
  ELSE IF kind = "animation" THEN <<"translations", "t_ratios", "t_previouses", "rotations", "r_ratios", "r_previouses",
                                    "scales", "s_ratios", "s_previouses">>
  ELSE <<"ratios", "values", "steps">>
Shape(kind, n) ==
  IF kind = "context" THEN LET s == Up(n, 4) IN <<s, s, s, 4 * s, 4 * s, 4 * s, Up(s, 8), Up(s, 8), Up(s, 8)>>
  ELSE IF kind = "skeleton" THEN <<n, Up(n, 4)>>
  ELSE IF kind = "animation" THEN <<n, n, n, n, n, n, n, n, n>>
  ELSE <<n, n, Up(n, 8)>>
\* contexts and tracks say how many they are; the others are as many as their arrays say
Says(kind) == kind \in {"context", "track"}
Fits(kind, count, lens) ==
  IF kind = "animation" THEN \A c \in {1, 4, 7} : lens[c] = lens[c + 1] /\ lens[c] = lens[c + 2]
  ELSE lens = Shape(kind, IF Says(kind) THEN count ELSE lens[1])
-----------------------------------------------------------------------------
\* An archive of `size` bytes, of which the first `root` hold arrays <<place, length, element size, alignment>>.
Lies(a, root) == /\ a[1] >= 0 /\ a[2] >= 0 /\ a[1] <= root /\ a[1] % a[4] = 0
                 /\ a[2] <= (root - a[1]) \div a[3]
AllLie(as, root) == \A i \in 1..Len(as) : Lies(as[i], root)
Ends(a) == a[1] + a[2] * a[3]
Disjoint(a, b) == a[2] = 0 \/ b[2] = 0 \/ Ends(a) <= b[1] \/ Ends(b) <= a[1]
Lens(as) == [i \in 1..Len(as) |-> as[i][2]]
\* A checker that reads the arrays in the order they were written and never goes back.
RECURSIVE Sweep(_, _, _, _)
Sweep(as, k, from, root) ==
  IF k > Len(as) THEN TRUE
  ELSE as[k][1] >= from /\ Lies(as[k], root) /\ Sweep(as, k + 1, Ends(as[k]), root)
Accepts(kind, count, as, root) == Sweep(as, 1, 0, root) /\ Fits(kind, count, Lens(as))
================================================================================
