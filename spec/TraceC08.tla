-------------------------------- MODULE TraceC08 -------------------------------
(* Additive layers, observed layer by layer: every event is one run of the job, *)
(* whose additive list extends that of the previous event by one layer (or is   *)
(* empty: the plain blend).                                                     *)
EXTENDS TraceBase, Blend
A == INSTANCE Additive
VARIABLES prev,   \* output of the previous event
          undo    \* <<layer, pose before it>> of the previous event
vars2 == <<prev, undo>>

Plain ==
  /\ HasEvent /\ E.op = "run" /\ E.res = "ok" /\ E.tail = E.tail0
  /\ E.k = 0
  /\ Len(E.out) = Cfg.n
  /\ \A j \in 1..Cfg.n : JointOk(E.out[j], Cfg.layers, Cfg.poses, Cfg.rest, j, Cfg.th)
  /\ prev' = E.out /\ undo' = <<>> /\ Advance

\* after adding and then subtracting the same layer with the same weights
Restored(a, b) == \A j \in 1..Cfg.n :
   /\ \A i \in {1, 2, 3, 8, 9, 10} : Near(a[j][i], b[j][i], 2)
   /\ NearAll(Quat(a[j]), Quat(b[j]), 4) \/ NearAll(Quat(a[j]), [i \in 1..4 |-> -Quat(b[j])[i]], 4)

One ==
  /\ HasEvent /\ E.op = "run" /\ E.res = "ok" /\ E.tail = E.tail0
  /\ E.k > 0
  /\ Len(E.out) = Cfg.n
  /\ LET y == Cfg.adds[E.k] IN
     /\ \A j \in 1..Cfg.n : AddOk(E.out[j], prev[j], Cfg.poses[y.p][j], AddWeight(y, j), y.w < 0, y.tiny)
     /\ (undo # <<>> /\ undo[1].p = y.p /\ undo[1].tiny = y.tiny /\ undo[1].w = -y.w /\ undo[1].jw = y.jw) => Restored(E.out, undo[2])
     /\ undo' = <<y, prev>>
  /\ prev' = E.out /\ Advance

\* a sequence of the model's layers over the rest pose; values are exact multiples
ModelJoint(o, m, ys) ==
  LET p == A!Fold(A!Bases[m], ys, m) IN
  /\ \A i \in 1..3 : o.t[i] = p.t[i] * 1024 /\ o.s[i] = 2 ^ (16 + p.e[i])
  /\ o.q = [i \in 1..4 |-> p.q[i] * 32768] \/ o.q = [i \in 1..4 |-> -p.q[i] * 32768]
Model ==
  /\ HasEvent /\ E.op = "model" /\ E.res = "ok" /\ Len(E.out) = Cfg.n
  /\ \A j \in 1..Cfg.n : ModelJoint(E.out[j], Cfg.map[j], E.run)
  /\ UNCHANGED vars2 /\ Advance

Init == BaseInit /\ prev = <<>> /\ undo = <<>>
Next == Model \/ Plain \/ One \/ (Finished /\ UNCHANGED vars2)
Spec == Init /\ [][Next]_<<sc, l, prev, undo>>
================================================================================
