-------------------------------- MODULE Trigger --------------------------------
(* Threshold crossings of a looping float track.                                *)
(* A track is [times, vals, steps]; time runs over 0..T per loop, loop k covers *)
(* k*T .. (k+1)*T.  Keys are cyclic: the last key precedes the first one.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

PrevKey(tr, i) == IF i = 1 THEN Len(tr.times) ELSE i - 1

Rises(tr, i, th) == tr.vals[PrevKey(tr, i)] <= th /\ tr.vals[i] > th
Falls(tr, i, th) == tr.vals[PrevKey(tr, i)] > th /\ tr.vals[i] <= th
Crosses(tr, i, th) == Rises(tr, i, th) \/ Falls(tr, i, th)

\* Where the value passes the threshold between the previous key and key i: <<num, den>>.
\* A step key (and the jump from the last key to the first) changes value at key i itself.
At(tr, i, th) ==
  LET p == PrevKey(tr, i)
      dv == tr.vals[i] - tr.vals[p]
      s == IF dv < 0 THEN -1 ELSE 1
  IN IF tr.steps[p] \/ i = 1 THEN <<tr.times[i], 1>>
     ELSE <<s * (tr.times[p] * dv + (tr.times[i] - tr.times[p]) * (th - tr.vals[p])), s * dv>>
\* exact when the grid is fine enough
AtInt(tr, i, th) == LET f == At(tr, i, th) IN f[1] \div f[2]
OnGrid(tr, i, th) == LET f == At(tr, i, th) IN f[1] % f[2] = 0

\* Edges of one loop, in the order the playhead meets them.
LoopEdges(tr, T, th, k) ==
  LET idx == SelectSeq([i \in 1..Len(tr.times) |-> i], LAMBDA i : Crosses(tr, i, th))
  IN [j \in 1..Len(idx) |-> <<k * T + AtInt(tr, idx[j], th), Rises(tr, idx[j], th)>>]

\* An edge of loop k is met when playing lo..hi forward: half open, the loop's very end
\* belonging to the loop it ends.
Met(e, k, T, lo, hi) == e[1] >= lo /\ (e[1] < hi \/ hi >= (k + 1) * T)

RECURSIVE FromLoop(_, _, _, _, _, _)
FromLoop(tr, T, th, lo, hi, k) ==
  IF k * T >= hi THEN <<>>
  ELSE SelectSeq(LoopEdges(tr, T, th, k), LAMBDA e : Met(e, k, T, lo, hi)) \o FromLoop(tr, T, th, lo, hi, k + 1)
Forward(tr, T, th, lo, hi) == IF lo >= hi THEN <<>> ELSE FromLoop(tr, T, th, lo, hi, lo \div T)

Mirror(es) == [i \in 1..Len(es) |-> <<es[Len(es) + 1 - i][1], ~es[Len(es) + 1 - i][2]>>]

Edges(tr, T, th, from, to) ==
  IF from <= to THEN Forward(tr, T, th, from, to) ELSE Mirror(Forward(tr, T, th, to, from))
================================================================================
