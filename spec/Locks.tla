--------------------------------- MODULE Locks ---------------------------------
(* What a job may observably do with the locks of its buffers.                  *)
EXTENDS Integers, Sequences, FiniteSets

\* who stands in the way of the job: a writer on what it reads, anybody on what it writes
Conflict(b, mode) == (b = "o" /\ mode # "") \/ (b = "i" /\ mode = "w")

\* Outcome of a run.  must: a lock it uses was poisoned before it started; may: one has been
\* poisoned since; blocked: some lock it uses was withheld from its start to its end.
OutcomeOk(res, must, may, blocked) ==
  /\ res \in {"ok", "poison"}
  /\ must => res = "poison"
  /\ res = "poison" => must \/ may
  /\ blocked => res = "poison"      \* it cannot have got that lock: only an error may end it
================================================================================
