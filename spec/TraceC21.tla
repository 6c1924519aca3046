-------------------------------- MODULE TraceC21 -------------------------------
(* Every answer of the trigonometric functions against the integer reference.   *)
EXTENDS TraceBase, Trig
tvars == <<sc, l>>
Tol == 5
Flip(b) == <<(b[1] + 32768) % 65536, b[2]>>
Zero(b) == b \in {<<0, 0>>, <<32768, 0>>}
\* at most one representable number apart
Next1(b) == IF b[2] = 65535 THEN <<b[1] + 1, 0>> ELSE <<b[1], b[2] + 1>>
Ulp1(b, c) == b = c \/ b = Next1(c) \/ c = Next1(b)
Mirror(b, c) == c = Flip(b) \/ (Zero(b) /\ Zero(c))

SinCos ==
  /\ E.op = "sc"
  /\ LET s == Sin(E.x) c == Cos(E.x) IN
     /\ TAbs(E.sin - (IF E.neg THEN -s ELSE s)) <= Tol
     /\ TAbs(E.cos - c) <= Tol
  \* odd and even, and the single functions agree with the pair
  /\ Mirror(E.bits[1], E.mirror[1]) /\ E.mirror[2] = E.bits[2]
  /\ E.parts = E.bits
Tiny ==
  /\ E.op = "tiny"
  /\ Ulp1(E.sin, E.x) /\ Ulp1(E.asin, E.x) /\ Ulp1(E.cos, <<16256, 0>>)
ArcSin ==
  /\ E.op = "asin"
  /\ AsinOk(E.y, E.asin, 7)
  /\ TAbs(E.acos + E.asin - HalfPi) <= 6
  /\ Mirror(E.bits, E.mirror)
Clamped ==
  /\ E.op = "clamp"
  /\ TAbs(E.asin - (IF E.neg THEN -HalfPi ELSE HalfPi)) <= 2
  /\ TAbs(E.acos - (IF E.neg THEN Pi ELSE 0)) <= 4
Init == BaseInit
Next == (HasEvent /\ E.res = "ok" /\ (SinCos \/ Tiny \/ ArcSin \/ Clamped) /\ Advance) \/ Finished
Spec == Init /\ [][Next]_tvars
================================================================================
