-------------------------------- MODULE TraceC15 -------------------------------
(* The same jobs on the same inputs by every build: d[i] is what build i        *)
(* reports for the step.  The order in which a hash table is enumerated has to  *)
(* be the same in every process and at every optimization level, but may depend *)
(* on the architecture (the table's probing width does).                        *)
EXTENDS TraceBase, Lockstep
Pairs(d) == [i \in 1..Len(d) |-> <<Cfg.names[i], d[i]>>]
Native(x) == x[1] \notin {"wasm", "wasm-simd"}
All(s) == [i \in 1..Len(s) |-> s[i][2]]
Step == /\ HasEvent /\ E.op = "step"
        /\ Len(E.d) = Cfg.builds /\ Cfg.builds >= 2
        /\ Agree(All(IF E.res = "names" THEN SelectSeq(Pairs(E.d), Native) ELSE Pairs(E.d)))
        /\ Advance
Init == BaseInit
Next == Step \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
