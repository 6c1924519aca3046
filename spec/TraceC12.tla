-------------------------------- MODULE TraceC12 -------------------------------
(* Loading archives, judged by the byte-level specification of the format.      *)
EXTENDS TraceBase, Archive

VARIABLES pos, ids
B == Cfg.bytes
IsError(r) == r \notin {"ok", "panic", "mixed"}
Agree(d) == IF d.ok THEN E.res = "ok" /\ E.obj = d.obj /\ (E.used >= 0 => E.used = d.end - 1)
            ELSE IsError(E.res)

\* the first object of the archive
Load == /\ HasEvent /\ E.op = "load"
        /\ Agree(Decode(E.as, B, 2))
        /\ UNCHANGED <<pos, ids>> /\ Advance
\* the object after those read so far
LoadNext == /\ HasEvent /\ E.op = "next"
        /\ LET d == Decode(E.as, B, pos) IN Agree(d) /\ pos' = (IF d.ok THEN d.end ELSE pos)
        /\ UNCHANGED ids /\ Advance
\* no proper prefix of an archive that holds exactly one object can be loaded
Prefixes == /\ HasEvent /\ E.op = "prefixes"
            /\ LET d == Decode(E.as, B, 2) IN d.ok /\ d.end = Len(B) + 1
            /\ \A k \in 1..Len(E.res) : E.at[k] < Len(B) /\ IsError(E.res[k])
            /\ UNCHANGED <<pos, ids>> /\ Advance
Meta == /\ HasEvent /\ E.op = "meta"
        /\ LET d == Decode(E.as, B, 2) IN
           IF ~d.ok THEN IsError(E.res)
           ELSE /\ E.res = "ok"
                /\ IF E.as = "animation"
                   THEN E.obj = [version |-> 7, duration |-> d.obj.duration, tracks |-> d.obj.tracks, name |-> d.obj.name,
                                 timepoints |-> Len(d.obj.timepoints),
                                 n |-> <<Len(d.obj.t.keys), Len(d.obj.r.keys), Len(d.obj.s.keys)>>,
                                 ne |-> <<Len(d.obj.t.entries), Len(d.obj.r.entries), Len(d.obj.s.entries)>>,
                                 nd |-> <<Len(d.obj.t.desc), Len(d.obj.r.desc), Len(d.obj.s.desc)>>]
                   ELSE E.obj = [version |-> 2, n |-> Len(d.obj.parents),
                                 names |-> IF E.joints THEN d.obj.names ELSE <<>>,
                                 parents |-> IF E.joints THEN d.obj.parents ELSE <<>>]
        /\ UNCHANGED <<pos, ids>> /\ Advance
\* both byte orders give the same samples
Sample == /\ HasEvent /\ E.op = "sample" /\ E.res = "ok"
          /\ ids = <<>> \/ ids = E.ids
          /\ ids' = E.ids /\ UNCHANGED pos /\ Advance

Init == BaseInit /\ pos = 2 /\ ids = <<>>
Next == Load \/ LoadNext \/ Prefixes \/ Meta \/ Sample \/ (Finished /\ UNCHANGED <<pos, ids>>)
Spec == Init /\ [][Next]_<<sc, l, pos, ids>>
================================================================================
