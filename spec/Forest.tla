--------------------------------- MODULE Forest --------------------------------
(* Joint hierarchies: forests whose joints are numbered in depth-first order.   *)
(* Joints are 0-based as in the API: the parent of joint j is p[j + 1], -1 none.*)
EXTENDS Integers, Sequences, FiniteSets

Parent(p, j) == p[j + 1]
Joints(p) == 0..(Len(p) - 1)

RECURSIVE AncSelf(_, _)
AncSelf(p, j) == IF j < 0 THEN {} ELSE {j} \cup AncSelf(p, Parent(p, j))

\* all forests of n joints in depth-first order: the next joint hangs below the previous one,
\* below one of its ancestors, or starts a new tree
RECURSIVE Forests(_)
Forests(n) == IF n = 0 THEN { <<>> }
              ELSE { Append(p, c) : p \in Forests(n - 1), c \in (-1)..(n - 2) }
                   \cap { q \in [1..n -> (-1)..(n - 2)] :
                            q[n] \in (IF n = 1 THEN {} ELSE AncSelf(q, n - 2)) \cup {-1} }

IsForest(p) == \A j \in Joints(p) : Parent(p, j) = -1 \/ (Parent(p, j) < j /\ Parent(p, j) \in AncSelf(p, j - 1))

\* descendants including the joint itself; a negative joint stands for "above all roots"
Subtree(p, j) == IF j < 0 THEN Joints(p) ELSE { k \in Joints(p) : j \in AncSelf(p, k) }

\* joints a partial update recomputes
Recomputed(p, from, to, excl) ==
  { k \in (IF from >= Len(p) THEN {} ELSE Subtree(p, from)) : k <= to /\ ~(excl /\ k = from) }
================================================================================
