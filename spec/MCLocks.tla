-------------------------------- MODULE MCLocks --------------------------------
(* A job over read locks (Ins) and one write lock, "o", against other threads   *)
(* that hold, release and poison them at any time.                              *)
(* Design "hold": take every lock, in any order, then write (sampling, local to *)
(* model, skinning).  Design "recheck": take "o", look at every input in turn,  *)
(* then write while taking every input again (blending).                        *)
EXTENDS Locks, TLC, Json, IOUtils, SequencesExt
CONSTANTS Ins, Design, MaxAct, PlanLen

Bufs == Ins \cup {"o"}
VARIABLES other,    \* other[b]: "" , "r" or "w", how another thread holds it
          poison,   \* poisoned locks
          acts,     \* actions of the others so far
          started, held, seen, used, wrote, res,
          must, since \* history: poisoned at the start; locks withheld ever since the start
vars == <<other, poison, acts, started, held, seen, used, wrote, res, must, since>>
Running == started /\ res = "run"
Free(b) == other[b] = "" /\ b \notin held
CanTake(b) == IF b = "o" THEN other[b] = "" ELSE other[b] # "w"
KindOf(b) == IF b = "o" THEN "o" ELSE "i"
Withheld(o) == { b \in Bufs : Conflict(KindOf(b), o[b]) }

Init == /\ other = [b \in Bufs |-> ""] /\ poison = {} /\ acts = 0 /\ started = FALSE
        /\ held = {} /\ seen = {} /\ used = {} /\ wrote = FALSE /\ res = "run" /\ must = FALSE /\ since = {}
jobvars == <<started, held, seen, used, wrote, res, must>>
Act == acts < MaxAct /\ acts' = acts + 1

Hold(b, m) == /\ Act /\ other[b] = ""
              /\ IF m = "w" THEN b \notin held ELSE ~(b = "o" /\ b \in held)
              /\ other' = [other EXCEPT ![b] = m]
              /\ UNCHANGED <<poison, jobvars>> /\ since' = since
Release(b) == other[b] # "" /\ other' = [other EXCEPT ![b] = ""] /\ since' = since \cap Withheld(other')
              /\ UNCHANGED <<poison, acts, jobvars>>
Poison(b) == Act /\ Free(b) /\ poison' = poison \cup {b} /\ UNCHANGED <<other, jobvars, since>>

Start == ~started /\ started' = TRUE /\ must' = (poison # {}) /\ since' = Withheld(other)
         /\ UNCHANGED <<other, poison, acts, held, seen, used, wrote, res>>
End(r) == res' = r /\ held' = {}
jobsame == UNCHANGED <<other, poison, acts, started, must, since>>

\* one design
TakeAll(b) == /\ Design = "hold" /\ Running /\ b \notin held /\ CanTake(b)
              /\ IF b \in poison THEN End("poison") ELSE held' = held \cup {b} /\ UNCHANGED res
              /\ UNCHANGED <<seen, used, wrote>> /\ jobsame
Write == /\ Design = "hold" /\ Running /\ held = Bufs
         /\ wrote' = TRUE /\ End("ok") /\ UNCHANGED <<seen, used>> /\ jobsame
\* the other
TakeOut == /\ Design = "recheck" /\ Running /\ held = {} /\ CanTake("o")
           /\ IF "o" \in poison THEN End("poison") ELSE held' = {"o"} /\ UNCHANGED res
           /\ UNCHANGED <<seen, used, wrote>> /\ jobsame
Look(b) == /\ Design = "recheck" /\ Running /\ "o" \in held /\ b \in Ins \ seen /\ CanTake(b)
           /\ IF b \in poison THEN End("poison") /\ UNCHANGED seen ELSE seen' = seen \cup {b} /\ UNCHANGED <<held, res>>
           /\ UNCHANGED <<used, wrote>> /\ jobsame
Use(b) == /\ Design = "recheck" /\ Running /\ seen = Ins /\ b \in Ins \ used /\ CanTake(b)
          /\ IF b \in poison THEN End("poison") /\ UNCHANGED <<used, wrote>>
             ELSE /\ used' = used \cup {b} /\ wrote' = TRUE
                  /\ IF used' = Ins THEN End("ok") ELSE UNCHANGED <<held, res>>
          /\ UNCHANGED seen /\ jobsame
Job == Start \/ (\E b \in Bufs : TakeAll(b)) \/ Write \/ TakeOut \/ (\E b \in Ins : Look(b) \/ Use(b))
Others == \E b \in Bufs : Hold(b, "r") \/ Hold(b, "w") \/ Poison(b) \/ Release(b)
Next == Job \/ Others \/ (res # "run" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Job) /\ \A b \in Bufs : WF_vars(Release(b))

Outcome == res # "run" => OutcomeOk(res, must, poison # {}, since # {})
Nothing == res # "run" => held = {}
\* an error leaves the output alone
Untouched == res = "poison" => ~wrote
\* ... which the second design only achieves when no lock it has looked at is poisoned later
UntouchedButWindow == res = "poison" => ~wrote \/ (seen = Ins /\ seen \cap poison # {})
Exclusive == \A b \in held : b = "o" => other[b] = ""
Ends == <>(res # "run")
-----------------------------------------------------------------------------
(* Schedules of the other threads to replay: sequences over hold / release /    *)
(* poison of one input "i" and one output "o" with one start of the job.        *)
RECURSIVE Sched(_, _, _, _)
Sched(n, oth, poi, st) ==
  {<<>>} \cup
  (IF n = 0 THEN {} ELSE
   LET go(a, b, o2, p2, s2) == { << <<a, b>> >> \o s : s \in Sched(n - 1, o2, p2, s2) } IN
   (IF st THEN {} ELSE go("start", "", oth, poi, TRUE))
   \cup UNION { IF oth[b] = "" THEN go("r", b, [oth EXCEPT ![b] = "r"], poi, st) \cup go("w", b, [oth EXCEPT ![b] = "w"], poi, st)
                ELSE go("rel", b, [oth EXCEPT ![b] = ""], poi, st) : b \in {"i", "o"} }
   \cup UNION { IF oth[b] = "" /\ b \notin poi THEN go("p", b, oth, poi \cup {b}, st) ELSE {} : b \in {"i", "o"} })
HasStart(s) == \E i \in 1..Len(s) : s[i][1] = "start"
Schedules == { s \in Sched(PlanLen, [b \in {"i", "o"} |-> ""], {}, FALSE) : HasStart(s) }
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN, [schedules |-> SetToSeq(Schedules)])
PlanSpec == Init /\ [][FALSE]_vars
================================================================================
