------------------------------- MODULE UserTrack -------------------------------
(* User-channel tracks: which keys a ratio selects.                             *)
(* A track is [times |-> increasing sequence starting at 0, steps |-> sequence  *)
(* of booleans].                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Declarative: the key at or before r (clamped).
LeftOf(times, r) ==
  LET S == { k \in 1..Len(times) : times[k] <= r } IN
  IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : j <= k

\* What a sample at r must be: <<k, k>> exactly key k's value, <<k, k+1>> their interpolation.
Want(times, steps, r) ==
  LET k == LeftOf(times, r) IN
  IF k = Len(times) \/ steps[k] \/ r < times[1] THEN <<k, k>> ELSE <<k, k + 1>>

\* Implementation-shaped: first key strictly after the ratio, then its predecessor.
RECURSIVE FirstAfter(_, _, _)
FirstAfter(times, r, k) == IF k > Len(times) \/ r < times[k] THEN k ELSE FirstAfter(times, r, k + 1)
Impl(times, steps, r, end) ==
  IF Len(times) = 1 \/ r < 0 THEN <<1, 1>>
  ELSE IF r > end THEN <<Len(times), Len(times)>>
  ELSE LET id1 == FirstAfter(times, r, 1)
           id0 == IF id1 = 1 THEN 1 ELSE id1 - 1
       IN IF steps[id0] \/ id1 = Len(times) + 1 THEN <<id0, id0>> ELSE <<id0, id1>>
================================================================================
