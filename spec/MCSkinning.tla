------------------------------- MODULE MCSkinning ------------------------------
(* The skinning loop over flattened influence arrays: vertex i owns N joint     *)
(* indices and N - 1 weights; the last influence takes the remaining weight.    *)
(* A blended matrix is abstracted to what it was built from: for every          *)
(* influence <<position in the index array, weight>>, a weight being a set of   *)
(* positions of the weight array with a sign (1 minus the sum of the others).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS NMAX, VMAX
VARIABLES n, vc, bad, \* job: influences, vertices, position of an out-of-range index (0 none)
          i, j, acc, used, out, res
vars == <<n, vc, bad, i, j, acc, used, out, res>>
job == <<n, vc, bad>>

Init == /\ n \in 1..NMAX /\ vc \in 0..VMAX
        /\ bad \in 0..(n * vc)
        /\ i = 0 /\ j = 0 /\ acc = <<>> /\ used = {} /\ out = <<>> /\ res = "run"
IdxPos(k) == i * n + k + 1
WPos(k) == i * (n - 1) + k + 1
Explicit(k) == [kind |-> "w", at |-> {WPos(k)}]
Rest == [kind |-> "rest", at |-> used]

Influence ==
  /\ res = "run" /\ i < vc /\ j < n
  /\ IF IdxPos(j) = bad THEN res' = "index" /\ UNCHANGED <<i, j, acc, used, out>>
     ELSE /\ acc' = Append(acc, <<IdxPos(j), IF j = n - 1 THEN Rest ELSE Explicit(j)>>)
          /\ used' = IF j = n - 1 THEN used ELSE used \cup {WPos(j)}
          /\ j' = j + 1
          /\ UNCHANGED <<i, out, res>>
  /\ UNCHANGED job
Write ==
  /\ res = "run" /\ i < vc /\ j = n
  /\ out' = Append(out, acc)
  /\ i' = i + 1 /\ j' = 0 /\ acc' = <<>> /\ used' = {}
  /\ UNCHANGED <<job, res>>
Done == res = "run" /\ i = vc /\ res' = "ok" /\ UNCHANGED <<job, i, j, acc, used, out>>
Next == Influence \/ Write \/ Done
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Vertex(v, a) ==
  /\ Len(a) = n
  /\ \A k \in 1..n : a[k][1] = (v - 1) * n + k
  /\ \A k \in 1..(n - 1) : a[k][2] = [kind |-> "w", at |-> {(v - 1) * (n - 1) + k}]
  /\ a[n][2] = [kind |-> "rest", at |-> ((v - 1) * (n - 1) + 1)..(v * (n - 1))]
Written == \A v \in 1..Len(out) : Vertex(v, out[v])
Complete == res = "ok" => Len(out) = vc /\ bad = 0
Caught == res = "index" => bad # 0 /\ Len(out) = (bad - 1) \div n
Ends == bad # 0 => res # "ok"
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN,
  [cases |-> SetToSeq({ [n |-> nn, vc |-> v, attr |-> a, it |-> t] :
       nn \in 1..NMAX, v \in 0..VMAX, a \in 1..3, t \in BOOLEAN })])
PlanSpec == (Init /\ n = 1 /\ vc = 0) /\ [][FALSE]_vars
================================================================================
