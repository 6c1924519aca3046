------------------------------ MODULE MCUserTrack ------------------------------
(* Every track on the grid 0..T (any interior keys, any step / linear mix), and *)
(* every order of sampling it: the job is a machine whose only memory is the    *)
(* previous result.                                                             *)
EXTENDS UserTrack, SequencesExt, Json, IOUtils
CONSTANT T
TrackSet == { [times |-> SetToSortSeq({0, T} \cup S, LAMBDA a, b : a < b), steps |-> st] :
                S \in SUBSET (1..(T - 1)), st \in [1..(T + 1) -> BOOLEAN] }
\* keep one representative: the step flags beyond the key count are irrelevant
Tracks == { tr \in TrackSet : \A k \in (Len(tr.times) + 1)..(T + 1) : ~tr.steps[k] }
Dbl(times) == [k \in 1..Len(times) |-> 2 * times[k]]
VARIABLES tr, r, res
vars == <<tr, r, res>>
None == -2
Ratios == (-1)..(2 * T + 1)
Init == tr \in Tracks /\ r = None /\ res = <<0, 0>>
Sample(x) == r' = x /\ res' = Impl(Dbl(tr.times), tr.steps, x, 2 * T) /\ UNCHANGED tr
Next == \E x \in Ratios : Sample(x)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Correct == r # None => LET w == Want(Dbl(tr.times), tr.steps, r) IN
             res = w \/ (w[1] = res[1] /\ r = 2 * tr.times[w[1]])   \* at a key both forms name its value
KeyTimes == r # None => \A k \in 1..Len(tr.times) : r = 2 * tr.times[k] => res[1] = k
-----------------------------------------------------------------------------
Pack == [times |-> Dbl(tr.times), steps |-> [k \in 1..Len(tr.times) |-> tr.steps[k]], td |-> 2 * T]
TrackId == ToString(<<tr.times, tr.steps>>)
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN, [ i \in { ToString(<<x.times, x.steps>>) : x \in Tracks } |->
   LET x == CHOOSE y \in Tracks : ToString(<<y.times, y.steps>>) = i IN
   [times |-> Dbl(x.times), steps |-> [k \in 1..Len(x.times) |-> x.steps[k]], td |-> 2 * T]])
PrintEdge == IOEnv.PLAN = "" \/ PrintT("EDGE " \o TrackId \o "|" \o ToString(r) \o "|" \o ToString(r') \o "|" \o ToString(r'))
================================================================================
