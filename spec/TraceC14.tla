-------------------------------- MODULE TraceC14 -------------------------------
(* Buffer styles, poisoned locks, faults in the middle of a run, contended      *)
(* locks, and concurrent use of shared resources.                               *)
EXTENDS TraceBase, Jobs, Locks

VARIABLES clean,   \* bits of the outputs of an undisturbed run
          orig,    \* bits of the outputs before the run
          log,     \* locks an undisturbed run takes, in order
          mode, poi, must, since, res  \* schedules: see MCLocks
v2 == <<clean, orig, log, mode, poi, must, since, res>>
same == UNCHANGED v2

\* one configuration in every style: slices, vectors, Rc, Arc, custom
Reported(c) == IF ValidReported(c) THEN "true" ELSE "false"
One(c, r) ==
  /\ r.valid = Reported(c)
  /\ r.mid = r.before
  /\ r.res \in Allowed(c)
  /\ r.res \notin {"ok", "index"} => r.after = r.before
  /\ r.free
Styles ==
  /\ HasEvent /\ E.op = "styles"
  /\ \A i \in 1..Len(E.r) : One(E.c, E.r[i]) /\ E.r[i] = E.r[1]
  /\ same /\ Advance
Poisons ==
  /\ HasEvent /\ E.op = "poisons" /\ One(E.c, E) /\ same /\ Advance

\* faults inside a run
Clean ==
  /\ HasEvent /\ E.op = "clean" /\ E.res = "ok" /\ E.free /\ Valid(E.c)
  /\ clean' = E.after /\ orig' = E.before /\ log' = E.log
  /\ UNCHANGED <<mode, poi, must, since, res>> /\ Advance
Taken(k) == { E.log[i] : i \in 1..k }
\* the one recorded finding: blending looks at its layers first and takes them again later
Known == /\ "C14-blend-window" \in { Cfg.known[i] : i \in 1..Len(Cfg.known) }
         /\ Cfg.job = "blending" /\ ~E.out /\ E.done >= 0 /\ E.member \in Taken(E.done)
         /\ E.res = (IF E.act = "poison" THEN "poison" ELSE "invalid")
Fault ==
  /\ HasEvent /\ E.op = "fault" /\ E.free
  /\ E.before = orig
  /\ \/ E.res = "ok" /\ E.after = clean
     \/ E.done >= 0 /\ E.act = "poison" /\ E.res = "poison" /\ E.after = orig
     \/ E.done >= 0 /\ E.act = "shrink" /\ E.res = "invalid" /\ E.after = orig
     \/ Known
  \* poisoned before the job took anything
  /\ E.done = 0 /\ E.act = "poison" => E.res = "poison"
  /\ same /\ Advance
Nest ==
  /\ HasEvent /\ E.op = "nest" /\ E.res = "ok" /\ E.free /\ E.after = clean /\ E.same
  /\ same /\ Advance

\* schedules of lock holders
Setup ==
  /\ HasEvent /\ E.op = "setup"
  /\ clean' = E.clean /\ orig' = E.before
  /\ mode' = [i |-> "", o |-> ""] /\ poi' = {} /\ must' = FALSE /\ since' = {"i", "o"} /\ res' = "new"
  /\ UNCHANGED log /\ Advance
Blocking(m) == { b \in {"i", "o"} : Conflict(b, m[b]) }
Act ==
  /\ HasEvent /\ E.op = "act"
  /\ mode' = IF E.a \in {"r", "w"} /\ E.did THEN [mode EXCEPT ![E.b] = E.a]
             ELSE IF E.a = "rel" THEN [mode EXCEPT ![E.b] = ""] ELSE mode
  /\ poi' = IF E.a = "p" /\ E.did THEN poi \cup {E.b} ELSE poi
  /\ must' = IF E.a = "start" THEN poi # {} ELSE must
  /\ since' = IF E.a = "start" THEN Blocking(mode) ELSE since \cap Blocking(mode')
  /\ IF res = "new" /\ E.a # "start" THEN E.obs = "idle" /\ res' = "new"
     ELSE IF res \in {"new", "run"}
     THEN \/ E.obs = "running" /\ Blocking(mode') # {} /\ res' = "run"
          \/ OutcomeOk(E.obs, must', poi' # {}, since' # {}) /\ res' = E.obs
     ELSE E.obs = "done" /\ res' = res
  /\ UNCHANGED <<clean, orig, log>> /\ Advance
End ==
  /\ HasEvent /\ E.op = "end" /\ res \in {"ok", "poison"}
  /\ E.free /\ E.after = IF res = "ok" THEN clean ELSE orig
  /\ same /\ Advance

\* threads sharing resources behave as when alone
Thread == HasEvent /\ E.op = "thread" /\ E.got = E.alone /\ same /\ Advance

Init == BaseInit /\ clean = 0 /\ orig = 0 /\ log = <<>> /\ mode = [i |-> "", o |-> ""] /\ poi = {} /\ must = FALSE /\ since = {} /\ res = "new"
Next == Styles \/ Poisons \/ Clean \/ Fault \/ Nest \/ Setup \/ Act \/ End \/ Thread \/ (Finished /\ same)
Spec == Init /\ [][Next]_<<sc, l, clean, orig, log, mode, poi, must, since, res>>
================================================================================
