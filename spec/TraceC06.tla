-------------------------------- MODULE TraceC06 -------------------------------
(* Hierarchy queries of a loaded skeleton.                                      *)
EXTENDS TraceBase, Forest

P == Cfg.parents
N == Len(P)

\* visits: sequence of <<joint, parent>>
Visits(v, ids) ==
  /\ Len(v) = Cardinality(ids)
  /\ \A k \in 1..Len(v) : v[k][1] \in ids /\ v[k][2] = Parent(P, v[k][1])
  /\ \A k \in 1..(Len(v) - 1) : v[k][1] < v[k + 1][1]

Shape ==
  /\ HasEvent /\ E.op = "shape" /\ E.res = "ok"
  /\ E.joints = N /\ E.aligned = 4 * ((N + 3) \div 4) /\ E.soa = (N + 3) \div 4
  /\ E.parents = P /\ E.parent = P
  /\ E.leaf = [j \in 1..N |-> ~\E k \in 1..N : P[k] = j - 1]
  /\ Advance

Depth ==
  /\ HasEvent /\ E.op = "dfs" /\ E.res = "ok"
  /\ Visits(E.v, IF E.from >= N THEN {} ELSE Subtree(P, E.from))
  /\ Advance

Reverse ==
  /\ HasEvent /\ E.op = "rev" /\ E.res = "ok"
  /\ Len(E.v) = N
  /\ \A k \in 1..N : E.v[k] = <<N - k, P[N - k + 1]>>
  /\ Advance

\* names both ways: name of joint j, joint of name j, and absent keys
Names ==
  /\ HasEvent /\ E.op = "names" /\ E.res = "ok"
  /\ E.name = Cfg.names
  /\ E.index = [j \in 1..N |-> j - 1]
  /\ E.count = N
  \* a name that only resembles a joint's is that of no joint, or of another one
  /\ {k \in 1..N : LET x == E.near[k] IN
         ~(IF x[2] = -9 THEN \A j \in 1..N : Cfg.names[j] # x[1]
           ELSE x[2] + 1 \in 1..N /\ Cfg.names[x[2] + 1] = x[1])} = {}
  /\ E.missing = <<-9, -9, -9>>   \* unknown name, index -1, index N
  /\ Advance

\* the limits: how many joints, how many groups of four hold them, the parent of a root
Limits ==
  /\ HasEvent /\ E.op = "limits"
  /\ E.v = <<1024, (1024 + 3) \div 4, -1>>
  /\ Advance

Init == BaseInit
Next == Shape \/ Limits \/ Depth \/ Reverse \/ Names \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
