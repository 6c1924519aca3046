-------------------------------- MODULE TraceC07 -------------------------------
(* Blending without additive layers.                                            *)
EXTENDS TraceBase, Blend

Run ==
  /\ HasEvent /\ E.op = "run" /\ E.res = "ok"
  /\ E.tail = E.tail0
  /\ Len(E.out) = Cfg.n
  /\ \A j \in 1..Cfg.n : JointOk(E.out[j], E.layers, Cfg.poses, Cfg.rest, j, E.th)
  /\ Advance

Init == BaseInit
Next == Run \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
