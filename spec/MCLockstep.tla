------------------------------- MODULE MCLockstep ------------------------------
(* Two builds run the same jobs on the same inputs.  Build 1 is the reference;  *)
(* build 2 may compute one kind of job differently (Fault), but only when a     *)
(* register it reads has been written by a given kind before (or always).       *)
(* Checked: without a fault all registers and digests agree for ever; with one, *)
(* hidden registers (the context's cache, the scratch accumulators) never       *)
(* differ for more than one step of their reader without a digest differing,    *)
(* and every fault shows up on some walk of three kinds, which is what the      *)
(* exported walks replay.                                                       *)
EXTENDS Lockstep, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES hist,  \* kinds run so far
          reg,   \* reg[b][r]: what register r holds on build b
          dig,   \* digest of the last step on each build
          fault  \* <<kind, after>>: build 2 deviates in `kind` once `after` has run (0: at once); <<0,0>>: never
vars == <<hist, reg, dig, fault>>
Faults == {<<0, 0>>} \cup (Kinds \X (Kinds \cup {0}))
\* a value is the step that produced it, and whether it is tainted by the fault
Init == /\ hist = <<>>
        /\ reg = [b \in 1..2 |-> [r \in Regs |-> <<0, FALSE>>]]
        /\ dig = <<<<0, FALSE>>, <<0, FALSE>>>>
        /\ fault \in Faults
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Active(k) == fault[1] = k /\ (fault[2] = 0 \/ fault[2] \in RangeOf(hist))
Out(b, k) == <<Len(hist) + 1, (b = 2 /\ Active(k)) \/ (\E r \in Reads(k) : reg[b][r][2])>>
Run(k) == /\ Len(hist) < Depth
          /\ hist' = Append(hist, k)
          /\ reg' = [b \in 1..2 |-> [r \in Regs |-> IF r \in Writes(k) THEN Out(b, k) ELSE reg[b][r]]]
          /\ dig' = [b \in 1..2 |-> Out(b, k)]
          /\ UNCHANGED fault
Next == \E k \in Kinds : Run(k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NoFaultAgrees == fault = <<0, 0>> => reg[1] = reg[2] /\ Agree(dig)
\* a deviation is visible in the digest of the very step that makes or meets it
Visible == hist # <<>> =>
             LET k == hist[Len(hist)] IN
             (Agree(dig) => \A r \in Writes(k) : reg[1][r] = reg[2][r])
\* a fault that shows at all shows on a walk of at most three kinds
Walks == [1..3 -> Kinds]
Shows(f, w) == \E i \in 1..3 : w[i] = f[1] /\ (f[2] = 0 \/ \E j \in 1..(i - 1) : w[j] = f[2])
EveryFaultShows == \A f \in Faults \ {<<0, 0>>} : \E w \in Walks : Shows(f, w)
ASSUME EveryFaultShows
-----------------------------------------------------------------------------
PlanInit == hist = <<>> /\ reg = <<>> /\ dig = <<>> /\ fault = <<0, 0>>
PlanSpec == PlanInit /\ [][FALSE]_vars
Code(w) == 100 * w[1] + 10 * w[2] + w[3]
ASSUME IOEnv.PLAN = "" \/ JsonSerialize(IOEnv.PLAN, [walks |-> {Code(w) : w \in Walks}])
================================================================================
