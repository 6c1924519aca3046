-------------------------------- MODULE TraceC16 -------------------------------
(* Every decoder's result for blocks of half floats and of rotation keys.       *)
EXTENDS TraceBase, Keys
Halves ==
  /\ HasEvent /\ E.op = "halves" /\ E.res = "ok"
  /\ Len(E.seen) = Cfg.count /\ Len(E.sampled) = Cfg.count
  /\ \A i \in 1..Cfg.count :
       LET h == Cfg.from + i - 1 IN
       /\ E.seen[i] = <<Single(h)>>
       /\ E.sampled[i] # <<>>
       /\ \A j \in 1..Len(E.sampled[i]) : SampledOk(h, E.sampled[i][j])
  /\ Advance
Quats ==
  /\ HasEvent /\ E.op = "quats" /\ E.res = "ok"
  /\ Len(E.keys) = Cfg.count /\ Len(E.seen) = Cfg.count /\ Len(E.sampled) = Cfg.count
  /\ \A i \in 1..Cfg.count :
       LET k == E.keys[i] IN
       /\ E.lanes[i] = 1
       /\ E.seen[i] # <<>> /\ E.sampled[i] # <<>>
       /\ \A j \in 1..Len(E.seen[i]) : QuatOk(k, E.seen[i][j])
       /\ \A j \in 1..Len(E.sampled[i]) : QuatSampledOk(k, E.sampled[i][j])
  /\ Advance
Init == BaseInit
Next == Halves \/ Quats \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
