-------------------------------- MODULE MCForest -------------------------------
(* Depth-first iteration as the implementation steps it (a running index that   *)
(* stops at the first joint whose parent lies before the start), against the    *)
(* subtree it must visit; for every forest and every start.                     *)
EXTENDS Forest, TLC, Json, IOUtils, SequencesExt
CONSTANT NMAX
VARIABLES p, from, i, seen, pc
vars == <<p, from, i, seen, pc>>
AllForests == UNION { Forests(n) : n \in 1..NMAX }
Max2(a, b) == IF a > b THEN a ELSE b

Init == /\ p \in AllForests
        /\ from \in (-2)..Len(p)
        /\ i = Max2(from, 0)
        /\ seen = <<>>
        /\ pc = IF Max2(from, 0) < Len(p) THEN "visit" ELSE "end"
Visit == /\ pc = "visit"
         /\ seen' = Append(seen, <<i, Parent(p, i)>>)
         /\ i' = i + 1
         /\ pc' = IF i + 1 < Len(p) /\ Parent(p, i + 1) >= from THEN "visit" ELSE "end"
         /\ UNCHANGED <<p, from>>
Next == Visit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ids == { seen[k][1] : k \in 1..Len(seen) }
Increasing == \A k \in 1..(Len(seen) - 1) : seen[k][1] < seen[k + 1][1]
ParentsFirst == \A k \in 1..Len(seen) : \/ seen[k][2] = -1
                                        \/ seen[k][1] = from
                                        \/ \E m \in 1..(k - 1) : seen[m][1] = seen[k][2]
Exact == pc = "end" => Ids = (IF from >= Len(p) THEN {} ELSE Subtree(p, from))
Leaf == \A j \in Joints(p) : (j + 1 = Len(p) \/ Parent(p, j + 1) # j) <=> ~\E k \in Joints(p) : Parent(p, k) = j
WellFormed == IsForest(p)
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN, [forests |-> SetToSeq(AllForests)])
PlanInit == Init /\ p = <<-1>> /\ from = 0
PlanSpec == PlanInit /\ [][FALSE]_vars
================================================================================
