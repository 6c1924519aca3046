-------------------------------- MODULE TraceC03 -------------------------------
(* Sampling user-channel tracks.  cfg.tracks: per track times, steps, td, quat, *)
(* keys (quantised components), kid (identity of each key's bits).              *)
EXTENDS TraceBase, UserTrack

Tol == 2
IsQuat(t) == t.quat

\* q and -q are the same rotation: the shorter way
Sign(t, k) == IF IsQuat(t) /\ t.keys[k][1] * t.keys[k + 1][1] + t.keys[k][2] * t.keys[k + 1][2] + t.keys[k][3] * t.keys[k + 1][3]
                             + t.keys[k][4] * t.keys[k + 1][4] < 0 THEN -1 ELSE 1
\* component-wise interpolation of keys a, b at r
LerpAt(t, k, r, c) == LET a == t.keys[k][c]  b == Sign(t, k) * t.keys[k + 1][c]
                          ta == t.times[k]  tb == t.times[k + 1]
                      IN <<a * (tb - r) + b * (r - ta), tb - ta>>

VecOk(t, k, r) ==
  /\ SaneAll(E.v, 100000)
  /\ \A c \in 1..Len(E.v) : LET f == LerpAt(t, k, r, c) IN IsFrac(E.v[c], f[1], f[2], Tol)
QuatOk(t, k, r) ==
  LET w == [c \in 1..4 |-> LET f == LerpAt(t, k, r, c) IN RDiv(f[1], f[2])] IN
  /\ Unit4(E.v, 4096, 4)
  /\ SameDir4(E.v, w, 4096 * 4)

Sample ==
  /\ HasEvent /\ E.op = "sample" /\ E.res = "ok"
  /\ LET t == Cfg.tracks[E.t]
         \* E.n: the ratio is the float just before (-1) or after (1) the grid value E.r
         w == Want([k \in 1..Len(t.times) |-> 4 * t.times[k]], t.steps, 4 * E.r + E.n)
     IN IF w[1] = w[2] THEN E.vid = t.kid[w[1]]
        ELSE IF IsQuat(t) THEN QuatOk(t, w[1], E.r) ELSE VecOk(t, w[1], E.r)
  /\ Advance

Init == BaseInit
Next == Sample \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
