------------------------------- MODULE MCBlending ------------------------------
(* The blending job's bookkeeping for one joint, at the grain of its passes: a  *)
(* first-pass layer overwrites, later ones accumulate, then the rest pose fills *)
(* and everything is divided by the accumulated weight.  The context keeps      *)
(* whatever an earlier run left (any accumulator values).  A transform is       *)
(* abstracted to its vector of coefficients over (layer 1..n, rest).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS NL, WS, JWS, THS
None == 99     \* no joint weights
WSq == {-1, 0, 1, 3}
JWSq == {99, -1, 0, 1, 4}
WSt == {0, 1, 3}
JWSt == {99, 0, 1, 4}
MaxOf(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

VARIABLES ws, jws, th,                 \* the job
          pc, k,                       \* control: next layer
          passes, partial, accs, accj, \* context
          coef                         \* output: coefficient of each layer, and of the rest pose
vars == <<ws, jws, th, pc, k, passes, partial, accs, accj, coef>>
N == Len(ws)
Unit(i) == [x \in 1..(NL + 1) |-> IF x = i THEN 1 ELSE 0]
Garbage == [x \in 1..(NL + 1) |-> 77]

Init == /\ \E n \in 0..NL : ws \in [1..n -> WS] /\ jws \in [1..n -> JWS]
        /\ th \in THS
        /\ pc = "start" /\ k = 1
        /\ passes \in {0, 5} /\ partial \in {0, 5} /\ accs \in {0, 7} /\ accj \in {0, 7}
        /\ coef = Garbage
job == <<ws, jws, th>>
Start == pc = "start" /\ pc' = "layers" /\ passes' = 0 /\ partial' = 0 /\ accs' = 0
         /\ UNCHANGED <<job, k, accj, coef>>
Layer ==
  /\ pc = "layers" /\ k <= N
  /\ k' = k + 1
  /\ IF ws[k] <= 0 THEN UNCHANGED <<passes, partial, accs, accj, coef>>
     ELSE LET w == ws[k] * (IF jws[k] = None THEN 2 ELSE MaxOf(0, jws[k])) IN
          /\ accs' = accs + 2 * ws[k]
          /\ partial' = partial + (IF jws[k] = None THEN 0 ELSE 1)
          /\ accj' = (IF passes = 0 THEN 0 ELSE accj) + w
          /\ coef' = IF passes = 0 THEN [x \in 1..(NL + 1) |-> IF x = k THEN w ELSE 0]
                     ELSE [coef EXCEPT ![k] = @ + w]
          /\ passes' = passes + 1
  /\ UNCHANGED <<job, pc>>
Rest ==
  /\ pc = "layers" /\ k > N
  /\ pc' = "normalize"
  /\ IF partial = 0
     THEN /\ IF th > accs
             THEN IF passes = 0 THEN coef' = Unit(NL + 1) /\ accs' = 1
                  ELSE coef' = [coef EXCEPT ![NL + 1] = @ + th - accs] /\ accs' = th
             ELSE UNCHANGED <<coef, accs>>
          /\ UNCHANGED accj
     ELSE /\ coef' = [coef EXCEPT ![NL + 1] = @ + MaxOf(0, th - accj)]
          /\ accj' = MaxOf(th, accj)
          /\ UNCHANGED accs
  /\ UNCHANGED <<job, k, passes, partial>>
Normalize ==
  /\ pc = "normalize" /\ pc' = "end"
  /\ UNCHANGED <<job, k, passes, partial, accs, accj, coef>>
Next == Start \/ Layer \/ Rest \/ Normalize
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Divisor == IF partial = 0 THEN accs ELSE accj
Want(i) == IF i > N \/ ws[i] <= 0 THEN 0 ELSE ws[i] * (IF jws[i] = None THEN 2 ELSE MaxOf(0, jws[i]))
Wants == [i \in 1..NL |-> Want(i)]
WantRest == MaxOf(0, th - Sum(Wants))
\* the result is the normalized weighted average with rest pose fill-in
Average == pc = "end" =>
  /\ Divisor > 0
  /\ \A i \in 1..NL : coef[i] * (Sum(Wants) + WantRest) = Want(i) * Divisor
  /\ coef[NL + 1] * (Sum(Wants) + WantRest) = WantRest * Divisor
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN,
  [nl |-> NL, ws |-> SetToSeq(WS), jws |-> SetToSeq(JWS \ {None}), ths |-> SetToSeq(THS),
   runs |-> SetToSeq(UNION { { [w |-> w, partial |-> p] : w \in [1..n -> WS], p \in [1..n -> BOOLEAN] } : n \in 0..NL })])
PlanSpec == (Init /\ ws = <<>> /\ th = 1 /\ passes = 0 /\ partial = 0 /\ accs = 0 /\ accj = 0) /\ [][FALSE]_vars
================================================================================
