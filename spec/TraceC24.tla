-------------------------------- MODULE TraceC24 -------------------------------
(* Changed documents and what the library makes of them.                        *)
EXTENDS TraceBase, Documents

\* in text: exactly what fits together is restored, to what the text says
Text == /\ HasEvent /\ E.op = "text"
        /\ (IF Fits(E.kind, E.count, E.lens) THEN E.res = "ok" /\ E.same ELSE E.res = "err")
        /\ Advance
\* parts missing (contexts can do without their arrays), or of another kind
Part == /\ HasEvent /\ E.op = "part"
        /\ (IF E.what = "gone" /\ E.kind = "context" /\ E.part # "max_tracks" THEN E.res \in {"ok", "err"} ELSE E.res = "err") = TRUE
        /\ Advance
\* in bytes: what is accepted lies within the bytes, fits together and is what is restored
Bytes == /\ HasEvent /\ E.op = "bytes"
         /\ (IF E.res = "ok" THEN AllLie(E.arrs, E.root) /\ Fits("context", E.count, Lens(E.arrs)) /\ E.same
             ELSE E.res = "err" /\ ~E.whole)
         /\ Advance
\* SIMD values lie at multiples of 16
Shift == HasEvent /\ E.op = "shift" /\ E.res = (IF E.by % 16 = 0 THEN "ok" ELSE "err") /\ Advance
Cut == HasEvent /\ E.op = "cut" /\ E.res = "err" /\ Advance

Init == BaseInit
Next == Text \/ Part \/ Bytes \/ Shift \/ Cut \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
