-------------------------------- MODULE TraceC18 -------------------------------
(* One aim job, run over and over with changing parameters.                     *)
EXTENDS TraceBase, IK

Full == E.wk = "full"
Points ==
  /\ Small(Cross(Sub3(E.x, E.o), E.f), 16)      \* the target lies on the axis through the offset
  /\ Dot(E.x, E.f) \div U >= -16                \* ahead of the joint, not behind it
Upright ==
  (Norm(Cross(E.td, E.pole)) >= 1600 /\ Norm(Cross(E.up, E.td)) >= 1600) =>
    Same(Cross(E.up, E.td), Twisted(Cross(E.pole, E.td), E.td, E.cos, E.sin))
Run ==
  /\ HasEvent /\ E.op = "aim" /\ E.res = "ok"
  /\ UnitAxis(E.fwd2)
  /\ E.same /\ E.inputs
  /\ E.reached = E.freached
  /\ E.far => AimReached(E.ac, E.r, E.reached)
  /\ E.exact # <<>> => E.reached = (E.exact[1] <= E.exact[2])
  /\ Correction(E.c) /\ Correction(E.fc)
  /\ ~E.reached \/ E.wk = "none" \/ (E.exact # <<>> /\ E.exact[2] = 0) => E.id
  /\ E.reached => WeightOk(E.wk, E.w, E.c, E.fc) /\ FineOk(E.n, E.fc)
  /\ (E.reached /\ Full /\ E.far) => Points /\ Upright
  /\ Advance
Invalid ==
  /\ HasEvent /\ E.op = "aim" /\ E.res = "invalid" /\ E.kept
  /\ NoAxis(E.fwd2)
  /\ Advance
Init == BaseInit
Next == Run \/ Invalid \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
