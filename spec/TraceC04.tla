-------------------------------- MODULE TraceC04 -------------------------------
(* Recorded triggering runs.  Ratios are integers over 4096 (one loop):      *)
(* keys and edges on multiples of 4, x +- 1 being the floats next to x.         *)
EXTENDS TraceBase, Trigger

Loop == 4096
Track == [times |-> Cfg.times, vals |-> Cfg.vals, steps |-> Cfg.steps]

\* far from zero single precision ratios cannot be exact: same edges, same order, same flags,
\* each within the resolution of the ratio
Same(w, got) ==
  /\ Len(w) = Len(got)
  /\ \A i \in 1..Len(w) :
       /\ got[i][2] = w[i][2]
       /\ IF Cfg.coarse = 0 THEN got[i][1] = w[i][1]
          ELSE Sane(got[i][1], 999999999) /\ Abs(got[i][1] - w[i][1]) <= Cfg.coarse

Run ==
  /\ HasEvent /\ E.op = "run" /\ E.res = "ok" /\ E.done
  /\ \A i \in 1..Len(Cfg.times) : Crosses(Track, i, E.th) => OnGrid(Track, i, E.th)
  /\ Same(Edges(Track, Loop, E.th, E.from, E.to), E.edges)
  /\ Advance

Init == BaseInit
Next == Run \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
