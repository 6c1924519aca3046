-------------------------------- MODULE TraceC20 -------------------------------
(* A machine of two SoA vectors, two SoA quaternions and a SoA transform: every *)
(* operation's result is recomputed lane by lane from the registers.            *)
EXTENDS TraceBase, Soa, Bitwise
VARIABLES v, q, t
tvars == <<sc, l, v, q, t>>
Zeros(n) == [k \in Lanes |-> [i \in 1..n |-> 0]]

A == v[E.a]
B == v[E.b]
QA == q[E.a]
QB == q[E.b]
\* result of an operation that writes a vector register
VRes ==
  CASE E.op = "vnew" -> E.arg
    [] E.op = "vset" -> [v[E.d] EXCEPT ![E.k] = E.arg]
    [] E.op = "vsplat" -> [k \in Lanes |-> VAll(E.arg)]
    [] E.op = "vsplatv" -> [k \in Lanes |-> E.arg]
    [] E.op = "vconst" -> [k \in Lanes |-> VConst(E.arg)]
    [] E.op = "neg" -> [k \in Lanes |-> VNeg(A[k])]
    [] E.op = "add" -> [k \in Lanes |-> VAdd(A[k], B[k])]
    [] E.op = "sub" -> [k \in Lanes |-> VSub(A[k], B[k])]
    [] E.op = "vmul" -> [k \in Lanes |-> VMul(A[k], E.arg[k])]
    [] E.op = "lerp" -> [k \in Lanes |-> VLerp(A[k], B[k], E.arg[k])]
    \* or and xor are used with the sign bit alone
    [] E.op = "vmask" -> [k \in Lanes |-> Masked(E.how, A[k], E.arg[k])]
    [] E.op = "vload" -> E.out
QRes ==
  CASE E.op = "qnew" -> E.arg
    [] E.op = "qset" -> [q[E.d] EXCEPT ![E.k] = E.arg]
    [] E.op = "qsplat" -> [k \in Lanes |-> <<E.arg, E.arg, E.arg, E.arg>>]
    [] E.op = "qsplatq" -> [k \in Lanes |-> E.arg]
    [] E.op = "qconst" -> [k \in Lanes |-> QConst(E.arg)]
    [] E.op = "conj" -> [k \in Lanes |-> QConj(QA[k])]
    [] E.op = "qadd" -> [k \in Lanes |-> QAdd(QA[k], QB[k])]
    [] E.op = "qmul" -> [k \in Lanes |-> QMul(QA[k], QB[k])]
    [] E.op = "qmuln" -> [k \in Lanes |-> QScale(QA[k], E.arg[k])]
    [] E.op = "qmask" -> [k \in Lanes |-> Masked(E.how, QA[k], E.arg[k])]
    [] E.op = "posw" -> [k \in Lanes |-> IF E.src[k][4] < 0 THEN QNeg(E.src[k]) ELSE IF E.src[k][4] > 0 THEN E.src[k]
                             \* no real part: either of the two
                             ELSE IF E.out[k] = QNeg(E.src[k]) THEN QNeg(E.src[k]) ELSE E.src[k]]
    [] E.op = "qload" -> E.out
VOps == {"vnew", "vset", "vsplat", "vsplatv", "vconst", "neg", "add", "sub", "vmul", "lerp", "vmask", "vload"}
QOps == {"qnew", "qset", "qsplat", "qsplatq", "qconst", "conj", "qadd", "qmul", "qmuln", "qmask", "posw", "qload"}
TOps == {"tset", "tsplat", "tnew", "tconst"}
Loads == {"vload", "qload"}
LanewiseOk == IF E.op \in Loads THEN TRUE ELSE E.alone

VOp == /\ HasEvent /\ Kind = "machine" /\ E.op \in VOps /\ E.res = "ok"
       /\ E.out = VRes /\ LanewiseOk
       /\ v' = [v EXCEPT ![E.d] = E.out] /\ UNCHANGED <<q, t>> /\ Advance
\* the harness overwrites some w before positive_w: the event says what it was given
SrcOk == IF E.op # "posw" THEN TRUE ELSE
  \A k \in Lanes : /\ E.src[k] \in {QA[k], [QA[k] EXCEPT ![4] = 0]}
                   /\ IF E.src[k][4] # 0 THEN E.neg[k] = (E.src[k][4] < 0) /\ E.signs[k] = FALSE ELSE TRUE
QOp == /\ HasEvent /\ Kind = "machine" /\ E.op \in QOps /\ E.res = "ok"
       /\ SrcOk /\ E.out = QRes /\ LanewiseOk
       /\ q' = [(IF E.op = "posw" THEN [q EXCEPT ![E.a] = E.src] ELSE q) EXCEPT ![E.d] = E.out]
       /\ UNCHANGED <<v, t>> /\ Advance
TRes ==
  CASE E.op = "tset" -> [t EXCEPT ![E.k] = E.arg]
    [] E.op = "tsplat" -> [k \in Lanes |-> E.arg]
    [] E.op = "tnew" -> [k \in Lanes |-> A[k] \o QA[k] \o B[k]]
    [] E.op = "tconst" -> [k \in Lanes |-> TConst(E.arg)]
TOp == /\ HasEvent /\ Kind = "machine" /\ E.op \in TOps /\ E.res = "ok"
       /\ E.out = TRes /\ t' = E.out /\ UNCHANGED <<v, q>> /\ Advance
Get == /\ HasEvent /\ Kind = "machine" /\ E.res = "ok" /\ UNCHANGED <<v, q, t>>
       /\ CASE E.op = "vget" -> E.out = A[E.k]
            [] E.op = "qget" -> E.out = QA[E.k]
            [] E.op = "tget" -> E.out = t[E.k]
            [] E.op = "dot" -> E.alone /\ E.out = [k \in Lanes |-> QDot(QA[k], QB[k])]
            [] OTHER -> FALSE
       /\ Advance
Mats == /\ HasEvent /\ Kind = "machine" /\ E.op = "tmats" /\ E.res = "ok" /\ E.alone
        /\ \A k \in Lanes : Dot4(E.rot[k], E.rot[k]) = 4 /\ E.out[k] = Affine(A[k], E.rot[k], B[k])
        /\ q' = [q EXCEPT ![E.a] = [k \in Lanes |-> QConst("IDENTITY")]] /\ UNCHANGED <<v, t>> /\ Advance

\* unit vectors along a and along the interpolated rotation, observed in 2^-15
U == 32768
Along(o, d) == LET n == Abs(d[1]) + Abs(d[2]) + Abs(d[3]) + Abs(d[4]) IN
   /\ Unit4(o, U, 3)
   \* two units of error per component
   /\ SameDir4(o, d, 4 * (n + 1))
Unit ==
  /\ HasEvent /\ Kind = "unit" /\ E.op = "unit" /\ E.res = "ok" /\ E.alone
  /\ \A k \in Lanes :
       \* almost normalized operands are seen in 1/256: only the length can be judged closely
       /\ IF E.close THEN Unit4(E.norm[k], U, 3) /\ SameDir4(E.norm[k], E.a[k], 4 * U) ELSE Along(E.norm[k], E.a[k])
       \* eight times the interpolated quaternion
       /\ IF E.close THEN TRUE ELSE
          LET d == [i \in 1..4 |-> 8 * E.a[k][i] + E.f[k] * (E.b[k][i] - E.a[k][i])] IN
          Dot4(d, d) >= 6400 => Along(E.nlerp[k], d)
  /\ UNCHANGED <<v, q, t>> /\ Advance
\* whatever one lane holds, the others come out the same
Poison ==
  /\ HasEvent /\ Kind = "poison" /\ E.op = "poison" /\ E.res = "ok"
  /\ \A k \in Lanes \ {E.k} : E.same[k]
  /\ UNCHANGED <<v, q, t>> /\ Advance

\* a single as two 16-bit halves
BAnd(x, y) == <<x[1] & y[1], x[2] & y[2]>>
BOr(x, y) == <<x[1] | y[1], x[2] | y[2]>>
BXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Flip(x) == <<(x[1] + 32768) % 65536, x[2]>>
IsNaN(x) == (x[1] % 32768) > 32640 \/ ((x[1] % 32768) = 32640 /\ x[2] # 0)
On(Op(_, _), s) == [k \in Lanes |-> [i \in 1..Len(s[k]) |-> Op(s[k][i], E.w[k])]]
NegV == [k \in Lanes |-> [i \in 1..3 |-> Flip(E.v[k][i])]]
ConjQ == [k \in Lanes |-> [i \in 1..4 |-> IF i = 4 THEN E.q[k][i] ELSE Flip(E.q[k][i])]]
\* a real part that is zero or not a number does not decide
PosQ == [k \in Lanes |-> [i \in 1..4 |-> IF E.q[k][4][1] > 32768 \/ (E.q[k][4][1] = 32768 /\ E.q[k][4][2] # 0) THEN Flip(E.q[k][i]) ELSE E.q[k][i]]]
Undecided(k) == E.q[k][4] \in {<<0, 0>>, <<32768, 0>>} \/ IsNaN(E.q[k][4])
PosOk == \A k \in Lanes : \A i \in 1..4 :
  \/ E.posw[k][i] = PosQ[k][i]
  \/ IsNaN(E.posw[k][i]) /\ IsNaN(E.q[k][i])
  \/ Undecided(k) /\ E.posw[k][i] \in {E.q[k][i], Flip(E.q[k][i])}
\* sign changes of something that is not a number only have to yield that again
SameBits(x, y) == \A k \in Lanes : \A i \in 1..Len(y[k]) : x[k][i] = y[k][i] \/ (IsNaN(x[k][i]) /\ IsNaN(y[k][i]))
Bits ==
  /\ HasEvent /\ Kind = "bits" /\ E.op = "bits" /\ E.res = "ok"
  /\ E.vand = On(BAnd, E.v) /\ E.vor = On(BOr, E.v) /\ E.vxor = On(BXor, E.v)
  /\ E.qand = On(BAnd, E.q) /\ E.qor = On(BOr, E.q) /\ E.qxor = On(BXor, E.q)
  /\ SameBits(E.neg, NegV) /\ SameBits(E.conj, ConjQ) /\ PosOk
  /\ UNCHANGED <<v, q, t>> /\ Advance
ExtremeOk(x) == CASE E.name = "MIN" -> x = <<65407, 65535>> [] E.name = "MAX" -> x = <<32639, 65535>>
                  [] E.name = "INFINITY" -> x = <<32640, 0>> [] E.name = "NEG_INFINITY" -> x = <<65408, 0>>
                  [] E.name = "NAN" -> IsNaN(x)
Extreme ==
  /\ HasEvent /\ Kind = "bits" /\ E.op = "extreme" /\ E.res = "ok"
  /\ \A k \in Lanes : \A i \in 1..3 : ExtremeOk(E.v[k][i])
  /\ UNCHANGED <<v, q, t>> /\ Advance

Init == BaseInit /\ v = [r \in 1..2 |-> Zeros(3)] /\ q = [r \in 1..2 |-> Zeros(4)] /\ t = Zeros(10)
Next == Poison \/ VOp \/ QOp \/ TOp \/ Get \/ Mats \/ Unit \/ Bits \/ Extreme \/ (Finished /\ UNCHANGED <<v, q, t>>)
Spec == Init /\ [][Next]_tvars
================================================================================
