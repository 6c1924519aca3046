------------------------------- MODULE Lockstep --------------------------------
(* What a job of each kind reads and writes among the things that survive a     *)
(* step.  A build is a deterministic machine over these registers: what it      *)
(* writes, and the digest it reports, is a function of the kind, the drawn      *)
(* input and what it reads.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == 1..9   \* sampling blending ltm skinning motion tracks aim twobone math
Regs == {"cache", "sampled", "scratch", "pose", "models"}
Reads(k) == CASE k = 1 -> {"cache", "sampled"}
              [] k = 2 -> {"sampled", "pose", "scratch"}
              [] k = 3 -> {"sampled", "pose", "models"}
              [] k = 4 -> {"models"}
              [] k = 7 -> {"models"}
              [] OTHER -> {}
Writes(k) == CASE k = 1 -> {"cache", "sampled"}
               [] k = 2 -> {"scratch", "pose"}
               [] k = 3 -> {"models"}
               [] OTHER -> {}
Shown(k) == CASE k = 1 -> {"sampled"} [] k = 2 -> {"pose"} [] k = 3 -> {"models"} [] OTHER -> {}
\* the digests one step reports, one per build
Agree(d) == \A i \in 2..Len(d) : d[i] = d[1]
================================================================================
