-------------------------------- MODULE TraceC05 -------------------------------
(* Local-to-model over integer transforms, where single precision is exact.     *)
(* A local is [t (3 ints), q (4 ints, twice the quaternion), s (3 ints)]; a     *)
(* matrix is 16 ints, column major.  ids identify the bits of each matrix.      *)
EXTENDS TraceBase, Forest

VARIABLES loc, mod, ids

P == Cfg.parents
N == Len(P)
At(m, r, c) == m[4 * (c - 1) + r]

\* translation * rotation * scale
Local(x) ==
  LET X == x.q[1]  Y == x.q[2]  Z == x.q[3]  W == x.q[4]
      h(a) == a \div 2
  IN << x.s[1] * h(2 - Y*Y - Z*Z), x.s[1] * h(X*Y + Z*W), x.s[1] * h(X*Z - Y*W), 0,
        x.s[2] * h(X*Y - Z*W), x.s[2] * h(2 - X*X - Z*Z), x.s[2] * h(Y*Z + X*W), 0,
        x.s[3] * h(X*Z + Y*W), x.s[3] * h(Y*Z - X*W), x.s[3] * h(2 - X*X - Y*Y), 0,
        x.t[1], x.t[2], x.t[3], 1 >>
Mul(a, b) == [i \in 1..16 |-> LET r == ((i - 1) % 4) + 1  c == ((i - 1) \div 4) + 1 IN
                 At(a, r, 1) * At(b, 1, c) + At(a, r, 2) * At(b, 2, c) + At(a, r, 3) * At(b, 3, c) + At(a, r, 4) * At(b, 4, c)]

Start ==
  /\ HasEvent /\ E.op = "init"
  /\ loc' = E.loc /\ mod' = E.mod /\ ids' = E.ids
  /\ Advance

Change ==
  /\ HasEvent /\ E.op = "set"
  /\ loc' = [j \in 1..N |-> IF \E k \in 1..Len(E.l) : E.l[k].j = j - 1
                            THEN E.l[CHOOSE k \in 1..Len(E.l) : E.l[k].j = j - 1] ELSE loc[j]]
  /\ UNCHANGED <<mod, ids>> /\ Advance

\* chg: the matrices whose bits changed, as <<joint, matrix>>; ids: all identities, including
\* those of matrices beyond the skeleton
Update ==
  /\ HasEvent /\ E.op = "update" /\ E.res = "ok"
  /\ LET R == Recomputed(P, E.from, E.to, E.excl)
         new == [j \in 1..N |-> IF \E k \in 1..Len(E.chg) : E.chg[k][1] = j - 1
                                THEN E.chg[CHOOSE k \in 1..Len(E.chg) : E.chg[k][1] = j - 1][2] ELSE mod[j]]
     IN /\ \A j \in 1..Len(ids) : (j > N \/ (j - 1) \notin R) => E.ids[j] = ids[j]
        /\ \A k \in 1..Len(E.chg) : E.chg[k][1] \in R
        /\ \A j \in 1..N : (j - 1) \in R =>
              new[j] = Mul(IF P[j] < 0 THEN E.root ELSE new[P[j] + 1], Local(loc[j]))
        /\ mod' = new
  /\ Len(E.ids) = Len(ids)
  /\ ids' = E.ids
  /\ UNCHANGED loc /\ Advance

\* A whole update over dual numbers hi + lo eps (eps * eps = 0): a joint with turn is turned by twice
\* that many eps around an axis, one with grow has its scale off by as many.
Turned(x) == LET a == x.turn IN
  << 0, 2 * x.s[1] * a[3], -(2 * x.s[1] * a[2]), 0,
     -(2 * x.s[2] * a[3]), 0, 2 * x.s[2] * a[1], 0,
     2 * x.s[3] * a[2], -(2 * x.s[3] * a[1]), 0, 0,
     0, 0, 0, 0 >>
\* (the turn of a joint with q = -1 goes the other way)
Sign(x) == IF x.q[4] < 0 THEN -1 ELSE 1
Grown(x) == [Local([x EXCEPT !.s = x.grow, !.t = <<0, 0, 0>>]) EXCEPT ![16] = 0]
Sum(a, b) == [i \in 1..16 |-> a[i] + b[i]]
Fine ==
  /\ HasEvent /\ E.op = "fine" /\ E.res = "ok"
  /\ {j \in 1..N :
        LET x == E.loc[j]
            dual == Sum([i \in 1..16 |-> Sign(x) * Turned(x)[i]], Grown(x))
            hi == IF P[j] < 0 THEN Local(x) ELSE Mul(E.hi[P[j] + 1], Local(x))
            lo == IF P[j] < 0 THEN dual ELSE Sum(Mul(E.lo[P[j] + 1], Local(x)), Mul(E.hi[P[j] + 1], dual))
        IN E.hi[j] # hi \/ E.lo[j] # lo} = {}
  /\ UNCHANGED <<loc, mod, ids>> /\ Advance

Init == BaseInit /\ loc = <<>> /\ mod = <<>> /\ ids = <<>>
Next == Start \/ Fine \/ Change \/ Update \/ (Finished /\ UNCHANGED <<loc, mod, ids>>)
Spec == Init /\ [][Next]_<<sc, l, loc, mod, ids>>
================================================================================
