-------------------------------- MODULE MCArchive ------------------------------
(* Writer and reader of the archive format against each other, over small       *)
(* objects of every type and both byte orders: the whole archive decodes to the *)
(* object that was written, no proper prefix decodes at all, no other type      *)
(* accepts it.  The state machine is a reader of a stream whose bytes arrive    *)
(* one by one, or that ends early.                                              *)
EXTENDS Archive, FiniteSets, TLC, Json, IOUtils, SequencesExt
Kinds == {"animation", "skeleton", "float", "float2", "float3", "float4", "quat"}
F1 == <<16256, 1>>       \* some words
F2 == <<49024, 65535>>
F3 == <<1, 258>>
W(n, s) == [i \in 1..n |-> IF (i + s) % 3 = 0 THEN F1 ELSE IF (i + s) % 3 = 1 THEN F2 ELSE F3]
B(n, s) == [i \in 1..n |-> (37 * i + s) % 256]
C(n, s, ne, nd, w) == [ratios |-> [i \in 1..n |-> IF w = 1 THEN (3 * i + s) % 256 ELSE (300 * i + s) % 65536],
                       prev |-> [i \in 1..n |-> (1000 * i + s) % 65536],
                       entries |-> B(ne, s), desc |-> W(nd, s), interval |-> F1,
                       keys |-> [i \in 1..n |-> <<i, 256 * i, 40000 + s>>]]
Anim(n, e, nm, tp) == LET w == IF tp <= 255 THEN 1 ELSE 2 IN
                  [duration |-> F1, tracks |-> n, name |-> [i \in 1..nm |-> 96 + i], timepoints |-> W(tp, 2),
                   t |-> C(2 * n, 1, e, e, w), r |-> C(3 * n, 5, 0, 0, w), s |-> C(2 * n, 7, 2 * e, e, w)]
Skel(n, s) == [names |-> [i \in 1..n |-> <<97 + i>> \o [k \in 1..(s * i % 3) |-> 65 + k]],
               parents |-> [i \in 1..n |-> i - 2], poses |-> W(40 * ((n + 3) \div 4), s)]
Trk(as, k, nm) == [keys |-> k, ratios |-> W(k, 0), values |-> W(k * Dim(as), 1), steps |-> B((k + 7) \div 8, 3), name |-> [i \in 1..nm |-> 64 + i]]
Objs(as) == CASE as = "animation" -> { Anim(n, e, nm, tp) : n \in {0, 1, 4}, e \in {0, 1}, nm \in {0, 3}, tp \in {2, 3} }
              [] as = "skeleton" -> { Skel(n, s) : n \in {0, 1, 4, 5}, s \in {0, 1} }
              [] OTHER -> { Trk(as, k, nm) : k \in {0, 1, 2, 8, 9}, nm \in {0, 2} }
WideObjs == { Anim(1, 1, 1, tp) : tp \in {255, 256} }

VARIABLES as, o, be, have, done
vars == <<as, o, be, have, done>>
File == EByte(be) \o EncodeObj(be, as, o)
Init == as \in Kinds /\ o \in Objs(as) /\ be \in BOOLEAN /\ have = 0 /\ done = "reading"
Arrive == done = "reading" /\ have < Len(File) /\ have' = have + 1 /\ UNCHANGED <<as, o, be, done>>
\* the stream ends here: read what there is
Finish == done = "reading" /\ done' = (IF have > 0 /\ Decode(as, SubSeq(File, 1, have), 2).ok THEN "ok" ELSE "error")
          /\ UNCHANGED <<as, o, be, have>>
Next == Arrive \/ Finish
Spec == Init /\ [][Next]_vars
WholeOnly == done = "ok" => have = Len(File)
Truncated == done = "error" => have < Len(File)
RoundTrip == (done = "ok" /\ have = Len(File)) =>
  LET d == Decode(as, File, 2) IN d.ok /\ d.obj = o /\ d.end = Len(File) + 1
Typed == have = Len(File) => \A k \in Kinds \ {as} : ~Decode(k, File, 2).ok
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN,
  [files |-> SetToSeq(UNION { { [as |-> k, bytes |-> EByte(b) \o EncodeObj(b, k, x)] :
                  x \in Objs(k) \cup (IF k = "animation" THEN WideObjs ELSE {}), b \in BOOLEAN } : k \in Kinds })])
PlanSpec == (Init /\ as = "float" /\ o = Trk("float", 0, 0) /\ be = TRUE) /\ [][FALSE]_vars
================================================================================
