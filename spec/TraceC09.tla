-------------------------------- MODULE TraceC09 -------------------------------
(* Motion blending.  Layers: [w (over 16), t (3 integers of integer length len),*)
(* q (1/4096)].  Output: [t (1/256), q (1/4096), s (1/256)].                    *)
EXTENDS TraceBase, Blend

Lcm == 315   \* lengths are divisors of 315

Active(ls) == SelectSeq(ls, LAMBDA x : x.w > 0)
SumW(ls) == SumSeq([i \in 1..Len(ls) |-> ls[i].w])
\* a tiny layer's translation is t * 2^-16: its length is lost in the rounding, its direction is not
SumL(ls) == SumSeq([i \in 1..Len(ls) |-> IF ls[i].tiny THEN 0 ELSE ls[i].w * ls[i].len])
\* weighted sum of the directions, times 315 * 16
Dir(ls) == [c \in 1..3 |-> SumSeq([i \in 1..Len(ls) |-> IF ls[i].len = 0 THEN 0 ELSE ls[i].w * ls[i].t[c] * (Lcm \div ls[i].len)])]

Same3(v, w, tol) == \A i \in 1..3 : \A j \in 1..3 : i < j => Abs(v[i] * w[j] - v[j] * w[i]) <= tol

TransOk(v, ls) ==
  LET d == Dir(ls)
      len == RDiv(SumL(ls) * 256, SumW(ls))
      dm == Max(Abs(d[1]), Max(Abs(d[2]), Abs(d[3])))
  IN /\ SaneAll(v, 9000)
     /\ IF d = <<0, 0, 0>> \/ len = 0 THEN TRUE
        ELSE \* directions (nearly) cancelling out leave the direction undefined
             20 * dm < SumW(ls) * Lcm \/
             /\ Abs(Dot3(v, v) - len * len) <= 8 * len + 16
             /\ Same3(v, d, 3 * dm + 8 * len)
             /\ (len > 8 => Dot3([i \in 1..3 |-> RDiv(v[i], 8)], d) > 0)
     /\ (SumL(ls) = 0 => v = <<0, 0, 0>>)

Run ==
  /\ HasEvent /\ E.op = "run" /\ E.res = "ok"
  /\ LET ls == Active(E.layers) IN
     IF ls = <<>> THEN E.t = <<0, 0, 0>> /\ E.q = <<0, 0, 0, 4096>> /\ E.ident
     ELSE /\ TransOk(E.t, ls)
          /\ RotBlendOk(E.q, [i \in 1..Len(ls) |-> <<16 * ls[i].w, <<0, 0, 0>> \o ls[i].q >>], 16 * SumW(ls))
  /\ E.s = <<256, 256, 256>>
  /\ Advance

Init == BaseInit
Next == Run \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
