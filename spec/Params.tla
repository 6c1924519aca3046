--------------------------------- MODULE Params --------------------------------
(* A job is its parameters.  A parameter is a value (it always has one, the     *)
(* documented default at first), or a reference to a shared buffer or object,   *)
(* which may be absent.  What running does is a function of the parameters, of  *)
(* what the referenced buffers hold at that moment and of the outputs' content; *)
(* it changes nothing but the outputs.                                          *)
EXTENDS Integers, Sequences
None == -1
Default(kind) == IF kind \in {"val", "ratio"} THEN 0 ELSE None
\* a new blending job comes with a context of its own
Initially(kind) == IF kind = "own" THEN 0 ELSE Default(kind)
\* ratios below 0, above 1 and NaN act as 0, 1 and 1 and are reported so (codes 0..3 are 0, 1/4, 3/5, 1)
Norm(kind, v) == IF kind = "ratio" THEN (CASE v = 4 -> 0 [] v = 5 -> 3 [] v = 6 -> 3 [] OTHER -> v) ELSE v
Defaults(kinds) == [s \in 1..Len(kinds) |-> Initially(kinds[s])]
Put(par, kinds, s, v) == [par EXCEPT ![s] = Norm(kinds[s], v)]
Drop(par, kinds, s) == [par EXCEPT ![s] = Default(kinds[s])]
Complete(par, kinds) == \A s \in 1..Len(kinds) : kinds[s] \in {"req", "own"} => par[s] # None

\* outcomes seen so far: a set of <<key, outcome>>
Consistent(memo, key, outcome) == \A m \in memo : m[1] = key => m[2] = outcome
================================================================================
