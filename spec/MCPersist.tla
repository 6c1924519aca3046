-------------------------------- MODULE MCPersist ------------------------------
(* Small instance, with an implementation-like layer below it: contexts are      *)
(* pointers to memory cells and every restore or clone allocates.  Sampling      *)
(* writes through the pointer, so values are independent only if no two slots    *)
(* share a cell - which is the property.                                         *)
EXTENDS Persist, FiniteSets, TLC, Json, IOUtils
CONSTANTS Anims, Ratios, Vias, Cells
VARIABLES slots, blob, via,   \* the specification
          ptr, mem, file      \* the implementation
vars == <<slots, blob, via, ptr, mem, file>>
S == 1..2
Values == (0..Anims) \X (0..Ratios)
Fresh == <<0, 0>>
Empty == <<99, 99>>
Free == Cells \ { ptr[s] : s \in S }
Alloc == CHOOSE c \in Free : \A d \in Free : c <= d

Init == /\ slots = [s \in S |-> Empty] /\ blob = Empty /\ via = 0
        /\ ptr = [s \in S |-> 0] /\ mem = [c \in Cells |-> Empty] /\ file = Empty

Put(s, v) == /\ slots' = Set(slots, s, v)
             /\ LET c == Alloc IN ptr' = Set(ptr, s, c) /\ mem' = Set(mem, c, v)
New(s) == slots[s] = Empty /\ Put(s, Fresh) /\ UNCHANGED <<blob, via, file>>
Sample(s, a, r) == /\ slots[s] # Empty
                   /\ slots' = Set(slots, s, <<a, r>>) /\ mem' = Set(mem, ptr[s], <<a, r>>)
                   /\ UNCHANGED <<blob, via, ptr, file>>
Save(s, v) == /\ slots[s] # Empty /\ blob' = slots[s] /\ via' = v /\ file' = mem[ptr[s]]
              /\ UNCHANGED <<slots, ptr, mem>>
Restore(s) == /\ blob # Empty /\ slots' = Set(slots, s, blob)
              /\ LET c == Alloc IN ptr' = Set(ptr, s, c) /\ mem' = Set(mem, c, file)
              /\ UNCHANGED <<blob, via, file>>
Clone(s) == /\ slots[s] # Empty /\ slots' = CloneTo(slots, s, 3 - s)
            /\ LET c == Alloc IN ptr' = Set(ptr, 3 - s, c) /\ mem' = Set(mem, c, mem[ptr[s]])
            /\ UNCHANGED <<blob, via, file>>
Drop(s) == /\ slots[s] # Empty /\ slots' = Set(slots, s, Empty) /\ ptr' = Set(ptr, s, 0)
           /\ mem' = Set(mem, ptr[s], Empty) /\ UNCHANGED <<blob, via, file>>

Key(sl, b, v) == ToString(<<sl, b, v>>)
Emit(lbl) == IF IOEnv.PLAN = "" THEN TRUE
             ELSE PrintT("EDGE " \o Key(slots, blob, via) \o "|" \o Key(slots', blob', via') \o "|" \o lbl)
PrintEdge == TRUE
Next == \E s \in S :
          \/ New(s) /\ Emit("new" \o " " \o ToString(s))
          \/ \E a \in 1..Anims, r \in 1..Ratios : Sample(s, a, r) /\ Emit("sample" \o " " \o ToString(s) \o " " \o ToString(a) \o " " \o ToString(r))
          \/ \E v \in Vias : Save(s, v) /\ Emit("save" \o " " \o ToString(s) \o " " \o ToString(v))
          \/ Restore(s) /\ Emit("restore" \o " " \o ToString(s))
          \/ Clone(s) /\ Emit("clone" \o " " \o ToString(s))
          \/ Drop(s) /\ Emit("drop" \o " " \o ToString(s))
Spec == Init /\ [][Next]_vars

Refines == /\ \A s \in S : slots[s] # Empty => ptr[s] \in Cells /\ mem[ptr[s]] = slots[s]
           /\ file = blob
NoAlias == \A s, t \in S : s # t /\ ptr[s] # 0 => ptr[s] # ptr[t]
\* sampling one slot leaves the other and the blob alone
Isolated == [][\A s \in S : (ptr'[s] = ptr[s] /\ ptr[s] # 0 /\ \E t \in S \ {s} : slots'[t] # slots[t])
                            => mem'[ptr[s]] = mem[ptr[s]]]_vars
================================================================================
