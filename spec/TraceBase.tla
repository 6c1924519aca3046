------------------------------- MODULE TraceBase -------------------------------
(* Skeleton of every trace specification.  A trace file holds one scenario per  *)
(* line: [id, kind, cfg, ev].  Scenarios are independent initial states; within *)
(* a scenario the events are consumed in order.  A state that cannot consume    *)
(* the next event is a deadlock, i.e. a recorded behaviour the specification    *)
(* does not allow.                                                              *)
EXTENDS Num, TLC, Json, IOUtils

Scs == ndJsonDeserialize(IOEnv.TRACE)
NScs == Len(Scs)

VARIABLES sc,  \* scenario being validated
          l    \* events consumed so far

Cfg == Scs[sc].cfg
Kind == Scs[sc].kind
Evs == Scs[sc].ev
HasEvent == l < Len(Evs)
E == Evs[l + 1]
Advance == HasEvent /\ l' = l + 1 /\ UNCHANGED sc
BaseInit == sc \in 1..NScs /\ l = 0
Finished == l = Len(Evs) /\ UNCHANGED <<sc, l>>
================================================================================
