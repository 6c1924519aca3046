-------------------------------- MODULE TraceC10 -------------------------------
(* Skinning over integers: matrices (16, column major), positions, normals and  *)
(* tangents are integers, weights are integers over wden; outputs are then     *)
(* exact multiples of 1/wden, observed in that unit.                                     *)
EXTENDS TraceBase

NaNQ == 1999999999
\* weight k (1..n) of vertex v, over wden
W(e, v, k) == IF k < e.n THEN e.w[(v - 1) * (e.n - 1) + k]
              ELSE e.wden - SumSeq([m \in 1..(e.n - 1) |-> e.w[(v - 1) * (e.n - 1) + m]])
Idx(e, v, k) == e.idx[(v - 1) * e.n + k]

\* weighted joint matrix entry (row r, column c), over wden
Blend(e, mats, v, r, c) == SumSeq([k \in 1..e.n |-> W(e, v, k) * mats[Idx(e, v, k) + 1][4 * (c - 1) + r]])
Point(e, mats, v, x) == [r \in 1..3 |-> Blend(e, mats, v, r, 1) * x[1] + Blend(e, mats, v, r, 2) * x[2]
                                        + Blend(e, mats, v, r, 3) * x[3] + Blend(e, mats, v, r, 4)]
Vector(e, mats, v, x) == [r \in 1..3 |-> Blend(e, mats, v, r, 1) * x[1] + Blend(e, mats, v, r, 2) * x[2]
                                        + Blend(e, mats, v, r, 3) * x[3]]

\* vertex v can be skinned: all its indices are in range
InRange(e, v) == \A k \in 1..e.n : Idx(e, v, k) < Len(e.mats) /\ (e.it /\ e.attr > 1 => Idx(e, v, k) < Len(e.its))
\* attribute a (1 position, 2 normal, 3 tangent) of vertex v has its skinned value
AttrOk(e, v, a) ==
  LET nm == IF e.it THEN e.its ELSE e.mats IN
  CASE a = 1 -> e.op_pos[v] = Point(e, e.mats, v, e.pos[v])
    [] a = 2 -> e.op_nor[v] = Vector(e, nm, v, e.nor[v])
    [] OTHER -> e.op_tan[v] = Vector(e, nm, v, e.tan[v])
AttrIn(e, v, a) == LET nm == IF a > 1 /\ e.it THEN e.its ELSE e.mats
                   IN \A k \in 1..e.n : Idx(e, v, k) < Len(nm)

Run ==
  /\ HasEvent /\ E.op = "run"
  /\ IF \A v \in 1..E.vc : InRange(E, v)
     THEN /\ E.res = "ok"
          /\ \A v \in 1..E.vc, a \in 1..E.attr : AttrOk(E, v, a)
     \* an error may leave vertices already done; nothing else is written
     ELSE /\ E.res = "index"
          /\ \A v \in 1..E.vc, a \in 1..E.attr : E.same[v][a] \/ (AttrIn(E, v, a) /\ AttrOk(E, v, a))
  /\ \A v \in 1..Len(E.same), a \in 1..3 : (v > E.vc \/ a > E.attr) => E.same[v][a]
  /\ Advance

\* A mesh of vc vertices repeating the same p: each of the p always comes out the same (op_* list
\* the distinct outputs of each), and nothing is written past the last vertex.
One(s) == [v \in 1..Len(s) |-> IF Len(s[v]) = 1 THEN s[v][1] ELSE <<>>]
Tiled ==
  /\ HasEvent /\ E.op = "tiled"
  /\ E.res = "ok" /\ E.same
  /\ LET e == [E EXCEPT !.op_pos = One(@), !.op_nor = One(@), !.op_tan = One(@)] IN
     \A v \in 1..E.p, a \in 1..E.attr : AttrOk(e, v, a)
  /\ Advance

Init == BaseInit
Next == Run \/ Tiled \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
