----------------------------- MODULE MCLocalToModel ----------------------------
(* Partial updates of the model-space buffer.  Matrices are abstracted to the   *)
(* chain of local versions they were computed from, which makes matrix product  *)
(* free: two matrices are equal iff they were built from the same locals.       *)
EXTENDS Forest, TLC
CONSTANT N
VARIABLES p, loc, mod, last
vars == <<p, loc, mod, last>>
FullRange == 2147483647

Val(pp, l, j, m) == <<l[j + 1]>> \o (IF Parent(pp, j) < 0 THEN <<>> ELSE m[Parent(pp, j) + 1])
\* the implementation: a running index; stops at the first joint outside of from's subtree
RECURSIVE Run(_, _, _, _, _, _)
Run(pp, l, m, idx, from, end) ==
  LET m2 == [m EXCEPT ![idx + 1] = Val(pp, l, idx, m)]
  IN IF idx + 1 < end /\ Parent(pp, idx + 1) >= from THEN Run(pp, l, m2, idx + 1, from, end) ELSE m2
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Impl(pp, l, m, from, to, excl) ==
  LET begin == Max2(0, from + (IF excl THEN 1 ELSE 0))
      end == Max2(0, Min2(IF to = FullRange THEN to ELSE to + 1, Len(pp)))
  IN IF begin < end /\ (~excl \/ Parent(pp, begin) >= from) THEN Run(pp, l, m, begin, from, end) ELSE m

\* declarative: the recomputed joints are equal to parent times local, all others are untouched
Ok(pp, l, m, m2, from, to, excl) ==
  LET R == Recomputed(pp, from, to, excl) IN
  \A j \in Joints(pp) : IF j \in R THEN m2[j + 1] = Val(pp, l, j, m2) ELSE m2[j + 1] = m[j + 1]

RECURSIVE Full(_, _, _)
Full(pp, l, j) == <<l[j + 1]>> \o (IF Parent(pp, j) < 0 THEN <<>> ELSE Full(pp, l, Parent(pp, j)))
Fresh(pp, l, m) == \A j \in Joints(pp) : m[j + 1] = Full(pp, l, j)

Init == /\ p \in UNION { Forests(n) : n \in 1..N }
        /\ loc = [j \in 1..Len(p) |-> 0]
        /\ mod = [j \in 1..Len(p) |-> Full(p, loc, j - 1)]
        /\ last = "ok"
Change(j) == loc' = [loc EXCEPT ![j + 1] = 1 - @] /\ last' = "ok" /\ UNCHANGED <<p, mod>>
Update(from, to, excl) ==
  LET m2 == Impl(p, loc, mod, from, to, excl) IN
  /\ mod' = m2
  /\ last' = IF Ok(p, loc, mod, m2, from, to, excl) THEN "ok" ELSE "wrong"
  /\ UNCHANGED <<p, loc>>
Next == \/ \E j \in Joints(p) : Change(j)
        \/ \E from \in (-2)..Len(p), to \in (-2)..Len(p) \cup {FullRange}, e \in BOOLEAN : Update(from, to, e)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
UpdateOk == last = "ok"
\* a full update makes everything fresh; so does a subtree update when everything stale is inside it
FullFresh == Fresh(p, loc, Impl(p, loc, mod, -1, FullRange, FALSE))
SubtreeEnough == \A j \in Joints(p) :
  (\A k \in Joints(p) \ Subtree(p, j) : mod[k + 1] = Full(p, loc, k)) =>
     Fresh(p, loc, Impl(p, loc, mod, j, FullRange, FALSE))
================================================================================
