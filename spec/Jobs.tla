---------------------------------- MODULE Jobs ---------------------------------
(* When a job is valid.  A configuration is a record: the job's name and, for   *)
(* every member, -1 when it is missing and its size otherwise (animations and   *)
(* sampling contexts in tracks, skeletons in joints, blending contexts and      *)
(* transform buffers in SoA elements, everything else in elements).             *)
EXTENDS Integers, Sequences, FiniteSets

Soa(n) == (n + 3) \div 4
Has(x) == x >= 0
Huge == 1000000000      \* stands for the largest machine integer
\* x elements are at least a * b
Fits(x, a, b) == IF a = 0 \/ b = 0 THEN TRUE
                 ELSE IF a >= Huge - 1 \/ b >= Huge - 1 THEN FALSE ELSE x >= a * b

\* a blending layer is [len, jw, w]: transforms, joint weights (0: none), weight sign
LayerOk(l, n) == l.len >= n /\ (l.jw = 0 \/ l.jw >= n)

Valid(c) ==
  CASE c.job = "sampling" -> Has(c.anim) /\ Has(c.ctx) /\ Has(c.out) /\ Soa(c.ctx) >= Soa(c.anim) /\ c.out >= Soa(c.anim)
    [] c.job = "blending" ->
         /\ Has(c.skel) /\ Has(c.ctx) /\ Has(c.out) /\ c.th = "positive"
         /\ c.out >= Soa(c.skel)
         /\ \A i \in 1..Len(c.layers) : LayerOk(c.layers[i], Soa(c.skel))
         /\ \A i \in 1..Len(c.adds) : LayerOk(c.adds[i], Soa(c.skel))
    [] c.job = "ltm" -> Has(c.skel) /\ Has(c.inp) /\ Has(c.out) /\ c.inp >= Soa(c.skel) /\ c.out >= c.skel
    [] c.job = "skinning" ->
         /\ c.n >= 1 /\ c.mats >= 1
         /\ Has(c.idx) /\ Fits(c.idx, c.vc, c.n)
         /\ c.n > 1 => Has(c.wts) /\ Fits(c.wts, c.vc, c.n - 1)
         /\ Has(c.ip) /\ c.ip >= c.vc /\ Has(c.op) /\ c.op >= c.vc
         /\ IF Has(c.inn) THEN /\ c.inn >= c.vc /\ Has(c.on) /\ c.on >= c.vc
                               /\ Has(c.it) => Has(c.ot) /\ c.it >= c.vc /\ c.ot >= c.vc
            ELSE ~Has(c.it)
    [] c.job = "tracksampling" -> Has(c.track)
    [] c.job = "tracktriggering" -> Has(c.track)
    [] c.job = "motion" -> TRUE
    [] c.job = "aim" -> c.axis = "unit"
    [] c.job = "twobone" -> c.axis = "unit"

\* buffers whose lock the job takes
Used(c) ==
  CASE c.job = "sampling" -> {"out"}
    [] c.job = "blending" -> {"out"} \cup { "layer" : i \in 1..Len(c.layers) } \cup { "add" : i \in 1..Len(c.adds) }
    [] c.job = "ltm" -> {"inp", "out"}
    [] c.job = "skinning" ->
         {"mats", "idx", "ip", "op"} \cup (IF c.n > 1 THEN {"wts"} ELSE {})
         \cup (IF Has(c.inn) THEN {"inn", "on"} \cup (IF Has(c.it) THEN {"it", "ot"} ELSE {})
                                  \cup (IF Has(c.its) THEN {"its"} ELSE {}) ELSE {})
    [] OTHER -> {}
PoisonedUse(c) == { c.poison[i] : i \in DOMAIN c.poison } \cap Used(c) # {}

Errors == {"invalid", "poison", "index", "unexcepted"}
\* joint indices out of range in the palette are the one data dependent failure
Allowed(c) == IF PoisonedUse(c) THEN (IF Valid(c) THEN {"poison"} ELSE Errors)
              ELSE IF ~Valid(c) THEN Errors
              ELSE IF c.job = "skinning" /\ c.bad > 0 THEN {"index"} ELSE {"ok"}
ValidReported(c) == Valid(c) /\ ~PoisonedUse(c)
================================================================================
