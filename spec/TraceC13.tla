-------------------------------- MODULE TraceC13 -------------------------------
(* Saved and restored objects (a chain of copies of one object) and contexts     *)
(* (slots and blobs of module Persist).  What is seen of a context is            *)
(* <<animation it holds keys of (0: none), identity of the rest of its state>>;  *)
(* equal identities are equal states, bit by bit.                                *)
EXTENDS TraceBase, Persist

VARIABLES obj, slots, blobs, used
Slots == 1..Cfg.slots
vs == <<obj, slots, blobs, used>>

\* an object is what it was made as, its copies are too, and making a copy changes nothing
Made == HasEvent /\ E.op = "made" /\ E.res = "ok" /\ obj' = E.see /\ UNCHANGED <<slots, blobs, used>> /\ Advance
Again == /\ HasEvent /\ E.op = "again" /\ E.res = "ok"
         /\ E.orig = obj /\ E.see = obj
         /\ UNCHANGED vs /\ Advance

SeeIs(f) == /\ \A s \in Slots : E.see[s] = f[s]
            /\ slots' = f
EqOk == \A k \in 1..Len(E.eq) :
          LET i == E.eq[k][1]  j == E.eq[k][2] IN E.see[i] = E.see[j] => E.eq[k][3] = 1
Op(o) == HasEvent /\ E.op = o /\ E.res = "ok" /\ EqOk /\ UNCHANGED obj /\ Advance

New == Op("new") /\ SeeIs(Set(slots, E.s, E.see[E.s])) /\ E.see[E.s][2] # 0 /\ UNCHANGED <<blobs, used>>
\* what sampling gives, and leaves behind, depends on the context's state alone
Sample == /\ Op("sample")
          /\ SeeIs(Set(slots, E.s, E.see[E.s]))
          /\ LET u == <<slots[E.s], E.a, E.r, E.out, E.see[E.s]>> IN
             /\ \A x \in used : (x[1] = u[1] /\ x[2] = u[2] /\ x[3] = u[3]) => x = u
             /\ used' = used \cup {u}
          /\ UNCHANGED blobs
Save == Op("save") /\ SeeIs(slots) /\ blobs' = SaveTo(slots, blobs, E.s, E.b) /\ UNCHANGED used
Restore == Op("restore") /\ SeeIs(RestoreTo(slots, blobs, E.b, E.s)) /\ UNCHANGED <<blobs, used>>
Clone == Op("clone") /\ SeeIs(CloneTo(slots, E.s, E.t)) /\ UNCHANGED <<blobs, used>>
CloneId == Op("cloneid") /\ SeeIs(Set(slots, E.t, <<0, slots[E.s][2]>>)) /\ UNCHANGED <<blobs, used>>
Clear == Op("clear") /\ SeeIs(Set(slots, E.s, E.see[E.s])) /\ E.see[E.s][1] = 0 /\ UNCHANGED <<blobs, used>>
Dropped == Op("drop") /\ SeeIs(Set(slots, E.s, None)) /\ UNCHANGED <<blobs, used>>

Init == /\ BaseInit /\ obj = 0 /\ used = {}
        /\ slots = IF Kind = "object" THEN <<>> ELSE [s \in Slots |-> None]
        /\ blobs = IF Kind = "object" THEN <<>> ELSE [b \in 1..Cfg.blobs |-> None]
Next == Made \/ Again \/ New \/ Sample \/ Save \/ Restore \/ Clone \/ CloneId \/ Clear \/ Dropped \/ (Finished /\ UNCHANGED vs)
Spec == Init /\ [][Next]_<<sc, l, obj, slots, blobs, used>>
================================================================================
