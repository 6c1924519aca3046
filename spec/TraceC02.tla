-------------------------------- MODULE TraceC02 -------------------------------
(* Sampling at a ratio yields, per track and channel, the interpolation of the  *)
(* two keys bracketing the (clamped) ratio.                                     *)
(* cfg: td (time of the clip's end), n tracks, per channel and track the keys   *)
(* <<time, components...>>.                                                      *)
EXTENDS TraceBase

NaNQ == 1999999999
TolV == 2      \* value quanta (1/256)

Ratio(r, td) == IF r = NaNQ THEN td ELSE Clamp(r, 0, td)

\* index of the left key: the last key at or before r that is not the last key
LeftKey(keys, r) ==
  CHOOSE k \in 1..(Len(keys) - 1) :
    /\ keys[k][1] <= r \/ k = 1
    /\ k = Len(keys) - 1 \/ keys[k + 1][1] > r

\* component c of keys a, b interpolated at r, observed as v
LerpOk(v, a, b, r, c, tol) ==
  LET dt == b[1] - a[1] IN
  IsFrac(v, a[c] * (b[1] - r) + b[c] * (r - a[1]), dt, tol)

\* tolerance grows with the quantisation of time on steep segments (recorded clips only)
Slack(a, b, c) == IF Kind = "real" THEN (2 * Abs(b[c] - a[c])) \div (b[1] - a[1]) + 1 ELSE 0

Vec3Ok(v, keys, r) ==
  LET k == LeftKey(keys, r)  a == keys[k]  b == keys[k + 1] IN
  /\ SaneAll(v, 100000)
  /\ \A c \in 2..4 : LerpOk(v[c - 1], a, b, r, c, TolV + Slack(a, b, c))

\* rotation: unit, in the direction of the linear interpolation of the keys
LerpI(a, b, r, c) == RDiv(a[c] * (b[1] - r) + b[c] * (r - a[1]), b[1] - a[1])
RotOk(v, keys, r) ==
  LET k == LeftKey(keys, r)  a == keys[k]  b == keys[k + 1]
      w == [c \in 1..4 |-> LerpI(a, b, r, c + 1)]
      slack == IF Kind = "real" THEN 4096 * (Max(Max(Slack(a, b, 2), Slack(a, b, 3)), Max(Slack(a, b, 4), Slack(a, b, 5)))) ELSE 0
  IN /\ Unit4(v, 4096, 4)
     /\ SameDir4(v, w, 4096 * 4 + slack)

TrackOk(t, r) ==
  LET o == E.out[t] IN
  /\ Vec3Ok(SubSeq(o, 1, 3), Cfg.t[t], r)
  /\ RotOk(SubSeq(o, 4, 7), Cfg.r[t], r)
  /\ Vec3Ok(SubSeq(o, 8, 10), Cfg.s[t], r)

Sample ==
  /\ HasEvent /\ E.op = "sample"
  /\ E.res = "ok"
  /\ Len(E.out) = Cfg.n
  /\ LET r == Ratio(E.r, Cfg.td) IN \A t \in 1..Cfg.n : TrackOk(t, r)
  /\ Advance

Init == BaseInit
Next == Sample \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
