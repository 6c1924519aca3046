-------------------------------- MODULE TraceC23 -------------------------------
(* The log of an allocator under the code that runs, and the places of the views *)
(* its objects give.  The same life is lived several times over, on memory with  *)
(* other contents and with nothing around the blocks; what is seen never differs. *)
EXTENDS TraceBase, Heap

VARIABLES heap, owned, seen, at, first
vars == <<heap, owned, seen, at, first>>

Same == LET x == <<E.res, E.dig>> IN
        /\ IF first THEN seen' = Append(seen, x) ELSE at < Len(seen) /\ seen[at + 1] = x /\ UNCHANGED seen
        /\ at' = at + 1
Step == LET r == Run(heap, E.log) IN r.ok /\ heap' = r.heap

Pass == /\ HasEvent /\ E.op = "pass"
        /\ first' = (l = 0) /\ at' = 0 /\ heap' = {} /\ owned' = [s \in 1..4 |-> {}] /\ UNCHANGED seen /\ Advance
\* what this took and kept belongs to the object it made
Make == /\ HasEvent /\ E.op = "make" /\ E.res = "ok" /\ owned[E.slot] = {}
        /\ Step /\ heap \subseteq heap'
        /\ owned' = [owned EXCEPT ![E.slot] = heap' \ heap]
        /\ ViewsOk(owned'[E.slot], E.views) = TRUE
        /\ Same /\ UNCHANGED first /\ Advance
Use == /\ HasEvent /\ E.op = "use" /\ E.res = "ok"
       /\ Step /\ heap' = heap /\ ViewsOk(owned[E.slot], E.views) = TRUE
       /\ Same /\ UNCHANGED <<first, owned>> /\ Advance
Fail == /\ HasEvent /\ E.op = "fail" /\ E.res = "ok"
        /\ Step /\ heap' = heap
        /\ Same /\ UNCHANGED <<first, owned>> /\ Advance
Drop == /\ HasEvent /\ E.op = "drop" /\ E.res = "ok"
        /\ Step /\ heap' = heap \ owned[E.slot]
        /\ owned' = [owned EXCEPT ![E.slot] = {}]
        /\ Same /\ UNCHANGED first /\ Advance
\* all objects are gone, and so is their memory; nobody wrote around the blocks
Done == /\ HasEvent /\ E.op = "done"
        /\ heap = {} /\ E.zones /\ (first \/ at = Len(seen)) = TRUE
        /\ UNCHANGED vars /\ Advance

Init == BaseInit /\ heap = {} /\ owned = <<>> /\ seen = <<>> /\ at = 0 /\ first = TRUE
Next == Pass \/ Make \/ Use \/ Fail \/ Drop \/ Done \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_<<sc, l, vars>>
================================================================================
