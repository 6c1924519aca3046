--------------------------------- MODULE MCHeap --------------------------------
(* Objects that come and go.  Each kind lays its arrays out in one block (and   *)
(* may keep further blocks); reading that fails, copies and uses take memory     *)
(* and give all of it back.  Whatever the history, memory is what the live      *)
(* objects own, and no view of a live object ever reaches another's.            *)
EXTENDS Heap, TLC, Json, IOUtils, SequencesExt
CONSTANTS SLOTS, KINDS, COUNTS, MAXB
VARIABLES slot,   \* slot -> [kind, n, number of its block], kind "none" when free
          heap,
          owned,  \* slot -> the blocks it owns
          next    \* number of the next block
vars == <<slot, heap, owned, next>>

\* arrays of an object of n: <<count, size, align>>, in the order they lie in
Fields(kind, n) ==
  LET soa == (n + 3) \div 4 IN
  IF kind = "context" THEN
    << <<1, 128, 8>>,
       <<soa, 128, 16>>, <<4 * soa, 4, 4>>, <<(soa + 7) \div 8, 1, 1>>,
       <<soa, 160, 16>>, <<4 * soa, 4, 4>>, <<(soa + 7) \div 8, 1, 1>>,
       <<soa, 128, 16>>, <<4 * soa, 4, 4>>, <<(soa + 7) \div 8, 1, 1>> >>
  ELSE IF kind = "skeleton" THEN << <<soa, 160, 16>>, <<n, 2, 2>> >>
  ELSE IF kind = "animation" THEN
    << <<2, 4, 4>>,
       <<2 * n, 6, 2>>, <<2 * n, 2, 2>>, <<2 * n, 2, 2>>, <<n, 1, 1>>, <<n % 3, 4, 4>>,
       <<2 * n, 6, 2>>, <<2 * n, 2, 2>>, <<2 * n, 2, 2>>, <<n + 1, 1, 1>>, <<n % 2, 4, 4>>,
       <<2 * n, 6, 2>>, <<2 * n, 2, 2>>, <<2 * n, 2, 2>>, <<n + 3, 1, 1>>, <<n % 5, 4, 4>> >>
  ELSE << <<n, 12, 4>>, <<n, 4, 4>>, <<(n + 7) \div 8, 1, 1>> >>
Size(kind, n) == Extent(Fields(kind, n), 1, 0)
Align(kind, n) == Widest(Fields(kind, n), 1)
Views(b, kind, n) == LET fs == Fields(kind, n)
                         at == Place(fs, 1, 0) IN
  [i \in 1..Len(fs) |-> <<"f", b, at[i], fs[i][1] * fs[i][2], fs[i][3], TRUE>>]
\* a block for an object that has something in it
Block(b, kind, n) == IF Size(kind, n) = 0 THEN <<>> ELSE << <<1, b, Size(kind, n), Align(kind, n)>> >>

\* layouts are sound whatever the counts
ASSUME \A k \in KINDS, n \in 0..130 :
  LET h == Run({}, Block(1, k, n)) IN h.ok /\ ViewsOk(h.heap, Views(1, k, n))

Free(s) == slot[s].kind = "none"
None == [kind |-> "none", n |-> 0, b |-> 0]
Init == slot = [s \in SLOTS |-> None] /\ heap = {} /\ owned = [s \in SLOTS |-> {}] /\ next = 1
\* what an operation took and kept belongs to the object it made
Do(log) == LET r == Run(heap, log) IN r.ok /\ heap' = r.heap
Temp(b) == << <<1, b, 24, 8>>, <<0, b, 24, 8>> >>
Put(s, k, n, log) == /\ next < MAXB
                     /\ Do(log \o Block(next + 1, k, n))
                     /\ owned' = [owned EXCEPT ![s] = heap' \ heap]
                     /\ slot' = [slot EXCEPT ![s] = [kind |-> k, n |-> n, b |-> next + 1]]
                     /\ next' = next + 2
First(s) == Free(s) /\ \A t \in SLOTS : t < s => ~Free(t)
Make(s, k) == First(s) /\ \E n \in COUNTS : Put(s, k, n, Temp(next))
Copy(o, s) == ~Free(o) /\ First(s) /\ Put(s, slot[o].kind, slot[o].n, Temp(next))
Use(o) == ~Free(o) /\ next < MAXB /\ Do(Temp(next)) /\ next' = next + 1 /\ UNCHANGED <<slot, owned>>
Fail(k) == /\ next < MAXB
           /\ Do(Temp(next) \o << <<1, next + 1, 8, 4>>, <<0, next + 1, 8, 4>> >>)
           /\ next' = next + 2 /\ UNCHANGED <<slot, owned>>
Drop(o) == /\ ~Free(o)
           /\ Do(LET x == Block(slot[o].b, slot[o].kind, slot[o].n) IN
                 [i \in 1..Len(x) |-> <<0, x[i][2], x[i][3], x[i][4]>>])
           /\ slot' = [slot EXCEPT ![o] = None] /\ owned' = [owned EXCEPT ![o] = {}] /\ UNCHANGED next
Next == \/ \E s \in SLOTS, k \in KINDS : Make(s, k)
        \/ \E o, s \in SLOTS : Copy(o, s)
        \/ \E o \in SLOTS : Use(o)
        \/ \E k \in KINDS : Fail(k)
        \/ \E o \in SLOTS : Drop(o)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* nothing is lost, nothing is kept that no object owns
Exact == \A s \in SLOTS : Cardinality(owned[s]) = (IF Free(s) \/ Size(slot[s].kind, slot[s].n) = 0 THEN 0 ELSE 1)
NoStray == heap = UNION { owned[s] : s \in SLOTS }
Apiece == \A s, t \in SLOTS : s # t => owned[s] \cap owned[t] = {}
Sound == \A s \in SLOTS : Free(s) \/ ViewsOk(owned[s], Views(slot[s].b, slot[s].kind, slot[s].n))
-----------------------------------------------------------------------------
\* the shape of a state, for walks: which kinds are where
Shape(f) == ToString([s \in SLOTS |-> f[s].kind])
S(x) == ToString(x)
PNext == \/ \E s \in SLOTS, k \in KINDS : First(s) /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.kind = k]]
                                          /\ PrintT("EDGE " \o Shape(slot) \o "|" \o Shape(slot') \o "|make:" \o S(s) \o ":" \o k)
         \/ \E o, s \in SLOTS : ~Free(o) /\ First(s) /\ slot' = [slot EXCEPT ![s] = slot[o]]
                                          /\ PrintT("EDGE " \o Shape(slot) \o "|" \o Shape(slot') \o "|copy:" \o S(o) \o ":" \o S(s))
         \/ \E o \in SLOTS : ~Free(o) /\ UNCHANGED slot
                                          /\ PrintT("EDGE " \o Shape(slot) \o "|" \o Shape(slot) \o "|use:" \o S(o))
         \/ \E k \in KINDS : UNCHANGED slot
                                          /\ PrintT("EDGE " \o Shape(slot) \o "|" \o Shape(slot) \o "|fail:" \o k)
         \/ \E o \in SLOTS : ~Free(o) /\ slot' = [slot EXCEPT ![o] = None]
                                          /\ PrintT("EDGE " \o Shape(slot) \o "|" \o Shape(slot') \o "|drop:" \o S(o))
PrintEdge == TRUE
PlanSpec == Init /\ [][PNext /\ UNCHANGED <<heap, owned, next>>]_vars
================================================================================
