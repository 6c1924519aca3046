-------------------------------- MODULE TraceC11 -------------------------------
(* One job object reconfigured again and again: every validate and run must     *)
(* agree with the configuration's validity, a failed run must leave the outputs *)
(* as they were, and a successful one must do what a new job would.             *)
EXTENDS TraceBase, Jobs

Run ==
  /\ HasEvent /\ E.op = "run"
  /\ E.c.job = Cfg.job
  /\ E.valid = "none" \/ E.valid = (IF ValidReported(E.c) THEN "true" ELSE "false")
  /\ E.mid = E.before
  /\ E.res \in Allowed(E.c)
  /\ E.res \notin {"ok", "index"} => E.after = E.before
  /\ E.fresh.res = E.res
  /\ E.fresh.after = E.after
  /\ E.free
  /\ Advance

Init == BaseInit
Next == Run \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
