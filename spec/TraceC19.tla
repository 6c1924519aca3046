-------------------------------- MODULE TraceC19 -------------------------------
(* One job object living through sets, clears, in-place edits of the buffers it *)
(* refers to and runs.  gets is what all getters report after the event, ins    *)
(* and outs identify the content of everything that can be read and written.    *)
EXTENDS TraceBase, Params
VARIABLES par, ins, outs, memo
tvars == <<sc, l, par, ins, outs, memo>>
Kinds == Cfg.kinds

Set ==
  /\ HasEvent /\ E.op = "set" /\ E.res = "ok"
  /\ par' = Put(par, Kinds, E.s, E.v) /\ UNCHANGED <<ins, outs, memo>>
  /\ E.gets = par' /\ E.ins = ins /\ E.outs = outs
  /\ Advance
Clear ==
  /\ HasEvent /\ E.op = "clear" /\ E.res = "ok"
  /\ par' = Drop(par, Kinds, E.s) /\ UNCHANGED <<ins, outs, memo>>
  /\ E.gets = par' /\ E.ins = ins /\ E.outs = outs
  /\ Advance
Edit ==
  /\ HasEvent /\ E.op = "edit"
  /\ ins' = E.ins /\ outs' = E.outs /\ UNCHANGED <<par, memo>>
  /\ E.gets = par
  /\ Advance
ClearOuts ==
  /\ HasEvent /\ E.op = "clearouts" /\ E.res = "ok"
  /\ outs' = E.outs /\ UNCHANGED <<par, ins, memo>>
  /\ E.outs = E.cleared /\ E.gets = par /\ E.ins = ins
  /\ Advance
\* a failed run that is not due to the data (a joint index) leaves the outputs alone
Run ==
  /\ HasEvent /\ E.op = "run" /\ E.res \in {"ok", "invalid", "index"}
  /\ ~Complete(par, Kinds) => E.res = "invalid"
  /\ E.valid = "none" \/ E.valid = (IF E.res = "invalid" THEN "false" ELSE "true")
  /\ E.gets = par /\ E.ins = ins
  /\ E.res = "invalid" => E.outs = outs
  /\ E.fresh = [valid |-> E.valid, res |-> E.res, ins |-> ins, outs |-> E.outs]
  /\ LET key == <<par, ins, outs>> IN
     LET outcome == <<E.res, E.outs>> IN
     Consistent(memo, key, outcome) /\ memo' = memo \cup {<<key, outcome>>}
  /\ outs' = E.outs /\ UNCHANGED <<par, ins>>
  /\ Advance

Init == BaseInit /\ par = Defaults(Cfg.kinds) /\ ins = Cfg.ins /\ outs = Cfg.outs /\ memo = {}
\* a new job's parameters are the documented defaults
Start == IF l = 0 THEN Cfg.gets = par ELSE TRUE
Next ==
  /\ Start
  /\ Set \/ Clear \/ Edit \/ ClearOuts \/ Run \/ (Finished /\ UNCHANGED <<par, ins, outs, memo>>)
Spec == Init /\ [][Next]_tvars
================================================================================
