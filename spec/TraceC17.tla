-------------------------------- MODULE TraceC17 -------------------------------
(* One two-bone job, run over and over with changing parameters.                *)
EXTENDS TraceBase, IK

Full == E.wk = "full"
\* the target or the pole vector give no direction: the caller's responsibility
Transverse == Norm(Cross(E.td, E.pole))
Undefined == E.d < 100 \/ Transverse < 40
Geometry ==
  /\ Abs3(E.e - EndAt(E.a, E.b, E.d, E.da)) <= 12                      \* the end joint is as far out as it should
  /\ E.reached => Abs3(E.e - E.d) <= 12
  /\ E.e >= 200 => Small(Cross(E.ed, E.td), 40) /\ Dot(E.ed, E.td) > 0   \* on the line to the target
  /\ Transverse >= 1600 =>
       LET n == Cross(E.td, E.pole)
           x == Twisted(n, E.td, E.cos, E.sin)
       IN /\ Same(E.ax, x)                                             \* the axis is normal to the plane asked for
          /\ Abs3(Dot(E.md, E.ax)) \div U <= 12                         \* the middle joint lies in it
          /\ Dot(E.md, Cross(E.ax, E.td)) \div U >= -50                 \* on the side of the pole vector
\* the chain family has the middle axis normal to both bones
Normal == Abs3(Dot(E.ax0, E.b1)) \div U <= 4 /\ Abs3(Dot(E.ax0, E.b2)) \div U <= 4

Run ==
  /\ HasEvent /\ E.op = "two" /\ E.res = "ok"
  /\ UnitAxis(E.axis2)
  /\ E.same /\ E.inputs
  /\ ReachedOk(E.a, E.b, E.d, E.da, Full, E.reached)
  /\ E.exact # <<>> => ReachedExact(E.exact, Full, E.reached)
  /\ E.wk = "none" => E.id
  /\ Correction(E.c2) /\ WeightOk(E.wk, E.w, E.c2, E.f2) /\ FineOk(E.n2, E.f2)
  /\ ~Undefined \/ E.wk = "none" => Correction(E.c1) /\ WeightOk(E.wk, E.w, E.c1, E.f1) /\ FineOk(E.n1, E.f1)
  /\ (Kind # "wild" /\ Full) =>
       /\ Normal
       /\ IF Undefined THEN TRUE ELSE Geometry
  /\ Advance
Invalid ==
  /\ HasEvent /\ E.op = "two" /\ E.res = "invalid" /\ E.kept
  /\ NoAxis(E.axis2)
  /\ Advance
Init == BaseInit
Next == Run \/ Invalid \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
