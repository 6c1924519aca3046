------------------------------- MODULE MCTrigger -------------------------------
(* The triggering iterator as the implementation steps it (a loop origin and a  *)
(* key index), over every small looping track, threshold and interval; what it  *)
(* has yielded when it ends must be the declarative list of crossings, and the  *)
(* declarative list must itself have the properties the job promises.           *)
EXTENDS Trigger, Json, IOUtils
CONSTANTS T, INNER, VALS, THS, STRIDE, SPAN

TimeSets == { {0, T} \cup S : S \in SUBSET INNER }
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Tracks == UNION { { [times |-> Sorted(S), vals |-> v, steps |-> s] :
                      v \in [1..Cardinality(S) -> VALS], s \in [1..Cardinality(S) -> BOOLEAN] } : S \in TimeSets }
Froms == { x \in 0..T : x % STRIDE = 0 }
Tos == { x \in (-SPAN)..(T + SPAN) : x % STRIDE = 0 }

VARIABLES tr, th, from, to, outer, inner, out, pc
vars == <<tr, th, from, to, outer, inner, out, pc>>
job == <<tr, th, from, to>>
N == Len(tr.times)

Init ==
  /\ tr \in Tracks /\ th \in THS /\ from \in Froms /\ to \in Tos
  /\ outer = (from \div T) * T
  /\ inner = IF from < to THEN 1 ELSE N
  /\ out = <<>>
  /\ pc = IF from = to THEN "end" ELSE "run"

Hit(i) == Crosses(tr, i, th)
Edge(i) == <<outer + AtInt(tr, i, th), Rises(tr, i, th) = (to > from)>>

FwdIn == LET e == Edge(inner) IN e[1] >= from /\ (e[1] < to \/ to >= outer + T)
BwdIn == LET e == Edge(inner) IN e[1] >= to /\ (e[1] < from \/ from >= outer + T)

NextLoopF == outer' = outer + T /\ inner' = 1
NextLoopB == outer' = outer - T /\ inner' = N

Forwards ==
  /\ pc = "run" /\ from < to
  /\ IF outer >= to THEN pc' = "end" /\ UNCHANGED <<outer, inner, out>>
     ELSE IF inner > N THEN NextLoopF /\ UNCHANGED <<out, pc>>
     ELSE IF Hit(inner) /\ FwdIn
       THEN out' = Append(out, Edge(inner)) /\ inner' = inner + 1 /\ UNCHANGED <<outer, pc>>
     ELSE IF tr.times[inner] + outer >= to THEN NextLoopF /\ UNCHANGED <<out, pc>>
     ELSE inner' = inner + 1 /\ UNCHANGED <<outer, out, pc>>

Backwards ==
  /\ pc = "run" /\ from > to
  /\ IF outer + T <= to THEN pc' = "end" /\ UNCHANGED <<outer, inner, out>>
     ELSE IF inner < 1 THEN NextLoopB /\ UNCHANGED <<out, pc>>
     ELSE IF Hit(inner) /\ BwdIn
       THEN out' = Append(out, Edge(inner)) /\ inner' = inner - 1 /\ UNCHANGED <<outer, pc>>
     ELSE IF tr.times[inner] + outer <= to THEN NextLoopB /\ UNCHANGED <<out, pc>>
     ELSE inner' = inner - 1 /\ UNCHANGED <<outer, out, pc>>

Next == (Forwards \/ Backwards) /\ UNCHANGED job
Spec == Init /\ [][Next]_vars
\* for exporting the scenarios only
PlanInit == Init /\ from = 0 /\ to = 0 /\ \A i \in 1..N : tr.vals[i] = 0 /\ ~tr.steps[i]
PlanSpec == PlanInit /\ [][Next]_vars
-----------------------------------------------------------------------------
Exact == pc = "end" => out = Edges(tr, T, th, from, to)
Prefix == LET w == Edges(tr, T, th, from, to) IN Len(out) <= Len(w) /\ out = SubSeq(w, 1, Len(out))
\* the variant that makes the iterator end
Bounded == outer >= -(((SPAN \div T) + 3) * T) /\ outer <= ((SPAN \div T) + 4) * T

Starting == out = <<>> /\ outer = (from \div T) * T /\ inner \in {1, N}
GridOk == Starting => \A i \in 1..N : Crosses(tr, i, th) => OnGrid(tr, i, th)
Alternate == Starting => LET w == Edges(tr, T, th, from, to) IN \A i \in 1..(Len(w) - 1) : w[i][2] # w[i + 1][2]
Ordered == Starting => LET w == Edges(tr, T, th, from, to) IN
   \A i \in 1..(Len(w) - 1) : IF from < to THEN w[i][1] <= w[i + 1][1] ELSE w[i][1] >= w[i + 1][1]
Mirrored == Starting => Edges(tr, T, th, to, from) = Mirror(Edges(tr, T, th, from, to))
Splits == Starting => \A m \in Tos : (from <= m /\ m <= to) \/ (to <= m /\ m <= from) =>
   Edges(tr, T, th, from, to) = Edges(tr, T, th, from, m) \o Edges(tr, T, th, m, to)

\* Independent meaning of a crossing: the value of the looping track around it.  Times are
\* doubled so that odd numbers are strictly inside grid cells.  Value > threshold at odd time x:
Above(x) ==
  LET y == x % (2 * T)
      k == CHOOSE k \in 1..N : 2 * tr.times[k] <= y /\ (k = N \/ 2 * tr.times[k + 1] > y)
      a == tr.vals[k]  b == tr.vals[k + 1]
      ta == 2 * tr.times[k]  tb == 2 * tr.times[k + 1]
  IN IF tr.steps[k] THEN a > th ELSE a * (tb - y) + b * (y - ta) > th * (tb - ta)
B(b) == IF b THEN 1 ELSE 0
NetOk == Starting /\ from < to => LET w == Edges(tr, T, th, from, to) IN
  \A x \in from..(to - 2) : LET c == SelectSeq(w, LAMBDA e : e[1] = x + 1) IN
     Len(SelectSeq(c, LAMBDA e : e[2])) - Len(SelectSeq(c, LAMBDA e : ~e[2])) = B(Above(2 * x + 3)) - B(Above(2 * x + 1))
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN,
  [tracks |-> SetToSeq(Tracks), ths |-> SetToSeq(THS), scale |-> 1024 \div T, vmul |-> 1,
   pairs |-> SetToSeq({ <<f, t>> : f \in Froms, t \in Tos })])
================================================================================
