-------------------------------- MODULE MCParams -------------------------------
(* Two parameters (A a value, B a required reference), one buffer M that B may  *)
(* refer to and one output.  Below the specification an implementation that     *)
(* keeps derived data between runs (as the sampling context, or a cached        *)
(* inverse, would): it may reuse them only when everything they were derived    *)
(* from is what it was.  GUARD says what the implementation compares; with the  *)
(* whole of it runs are functions of the parameters.                            *)
EXTENDS Params, FiniteSets, TLC, Json, IOUtils
CONSTANTS GUARD
VARIABLES par, mem, out,      \* the specification
          derived, of         \* the implementation
vars == <<par, mem, out, derived, of>>
Kinds == <<"val", "req">>
Vals == 0..1
\* what the parameters mean; B = 0 refers to the buffer, B = 1 to a constant
F(a, b, m) == 10 * a + (IF b = 0 THEN m ELSE 5)
Source == [a |-> par[1], b |-> par[2], m |-> mem]
Init == par = Defaults(Kinds) /\ mem = 0 /\ out = 99 /\ derived = 99 /\ of = [a |-> 99, b |-> 99, m |-> 99]
SetP(s, v) == par' = Put(par, Kinds, s, v) /\ UNCHANGED <<mem, out, derived, of>>
ClearP(s) == par' = Drop(par, Kinds, s) /\ UNCHANGED <<mem, out, derived, of>>
Edit(v) == mem' = v /\ UNCHANGED <<par, out, derived, of>>
ClearOuts == out' = 99 /\ UNCHANGED <<par, mem, derived, of>>
Same == CASE GUARD = "all" -> of = Source
          [] GUARD = "identity" -> of.a = par[1] /\ of.b = par[2]
Run ==
  IF ~Complete(par, Kinds) THEN UNCHANGED vars
  ELSE LET d == IF Same THEN derived ELSE F(par[1], par[2], mem) IN
       /\ derived' = d /\ of' = Source /\ out' = d /\ UNCHANGED <<par, mem>>

Key(p, m, o) == ToString(<<p, m, o>>)
Emit(lbl) == IF IOEnv.PLAN = "" THEN TRUE
             ELSE PrintT("EDGE " \o Key(par, mem, out) \o "|" \o Key(par', mem', out') \o "|" \o lbl)
PrintEdge == TRUE
Next ==
  \/ \E v \in Vals : SetP(1, v) /\ Emit("A " \o ToString(v))
  \/ \E v \in Vals : SetP(2, v) /\ Emit("B " \o ToString(v))
  \/ ClearP(1) /\ Emit("A -1")
  \/ ClearP(2) /\ Emit("B -1")
  \/ \E v \in Vals : Edit(v) /\ Emit("M " \o ToString(v))
  \/ ClearOuts /\ Emit("O 0")
  \/ Run /\ Emit("R 0")
Spec == Init /\ [][Next]_vars

\* a run leaves the function's value in the output, a run that is not complete leaves everything
Pure == [][(out' # out /\ out' # 99) => out' = F(par[1], par[2], mem) /\ Complete(par, Kinds)]_vars
Fresh == [][Run /\ Complete(par, Kinds) => out' = F(par[1], par[2], mem)]_vars
Frame == [][(par' # par => out' = out /\ mem' = mem) /\ (mem' # mem => out' = out)]_vars
================================================================================
