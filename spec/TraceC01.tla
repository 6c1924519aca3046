-------------------------------- MODULE TraceC01 -------------------------------
(* History independence.  The abstract state is only: the capacity of each      *)
(* context and a memo of the pose (identity of its bytes) first seen for each   *)
(* (animation, ratio).  Every sample must reproduce the memo and what a brand-  *)
(* new context gives, must not touch the tail of the output, and must succeed   *)
(* exactly when the context is large enough.                                    *)
EXTENDS TraceBase

VARIABLES caps,  \* SoA capacity of each context created so far
          memo   \* <<animation, ratio>> :> pose identity

Fits(c, a) == caps[c] >= Cfg.soa[a]
SoaOf(n) == (n + 3) \div 4

New ==
  /\ HasEvent /\ E.op = "new" /\ E.res = "ok"
  /\ E.soa = SoaOf(E.cap)
  /\ caps' = Append(caps, E.soa)
  /\ UNCHANGED memo /\ Advance

Sample ==
  /\ HasEvent /\ E.op = "sample"
  /\ E.tail = E.tail0
  /\ LET k == <<E.a, E.r>> IN
     IF Fits(E.c, E.a)
     THEN /\ E.res = "ok"
          /\ E.d = E.fresh
          /\ IF k \in DOMAIN memo THEN E.d = memo[k] /\ UNCHANGED memo
             ELSE memo' = memo @@ (k :> E.d)
     ELSE /\ E.res = "invalid"
          /\ E.d = E.untouched
          /\ UNCHANGED memo
  /\ UNCHANGED caps /\ Advance

Clear ==
  /\ HasEvent /\ E.op = "clear" /\ E.res = "ok"
  /\ UNCHANGED <<caps, memo>> /\ Advance

\* clone, clone without animation id, serde and rkyv round trips
Copy ==
  /\ HasEvent /\ E.op = "copy" /\ E.res = "ok"
  /\ E.soa = caps[E.c]
  /\ E.eq
  /\ caps' = Append(caps, E.soa)
  /\ UNCHANGED memo /\ Advance

Init == BaseInit /\ caps = <<>> /\ memo = <<>>
Next == New \/ Sample \/ Clear \/ Copy \/ (Finished /\ UNCHANGED <<caps, memo>>)
Spec == Init /\ [][Next]_<<sc, l, caps, memo>>
================================================================================
