-------------------------------- MODULE MCReader -------------------------------
(* The reader at the grain of the calls it makes on its source: the source      *)
(* hands out any non-empty part of what is asked, or interrupts, or (at a given *)
(* byte) fails for good.  Whatever the schedule of the source, the sequence of  *)
(* results is the one the specification gives for the bytes alone.              *)
EXTENDS Reader, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS BYTES, NB, NOPS
Ops == { <<"u8", 1>>, <<"u16", 1>>, <<"string", 1>>, <<"u8", 2>>, <<"bool", 1>>, <<"string", 2>> }
VARIABLES B, ops, fail,   \* the job: stream (with its first byte), reads, byte at which the source fails (0 never)
          i, pos,         \* next read, next byte of the source
          buf,            \* bytes of the primitive being read
          str,            \* bytes of the string being read
          vals, left,     \* values read by this operation, elements still to read
          out             \* results so far
vars == <<B, ops, fail, i, pos, buf, str, vals, left, out>>
job == <<B, ops, fail>>
Streams == UNION { [1..n -> BYTES] : n \in 0..NB }
Init == /\ B \in { <<x>> \o s : x \in {0, 1}, s \in Streams }
        /\ ops \in UNION { [1..n -> Ops] : n \in 0..NOPS }
        /\ fail \in {0} \cup 2..Len(B)
        /\ i = 1 /\ pos = 2 /\ buf = <<>> /\ str = <<>> /\ vals = <<>> /\ left = 0 /\ out = <<>>
Big == B[1] = 0
Alive == IF out = <<>> THEN TRUE ELSE out[Len(out)].res \in {"ok", "utf8"}
T == ops[i][1]
Prim1 == IF T = "string" THEN "u8" ELSE T
Need == PrimSize[Prim1] - Len(buf)
Limit == IF fail = 0 THEN Len(B) ELSE fail - 1

Begin == /\ Alive /\ i <= Len(ops) /\ left = 0
         /\ left' = ops[i][2] /\ buf' = <<>> /\ str' = <<>> /\ vals' = <<>>
         /\ UNCHANGED <<job, i, pos, out>>
\* the source hands out k bytes
Give == /\ left > 0 /\ Need > 0 /\ pos <= Limit
        /\ \E k \in 1..Need : /\ pos + k - 1 <= Limit
                              /\ buf' = buf \o SubSeq(B, pos, pos + k - 1)
                              /\ pos' = pos + k
        /\ UNCHANGED <<job, i, str, vals, left, out>>
Finish(r) == /\ out' = Append(out, r) /\ i' = i + 1 /\ left' = 0
\* nothing more to be had
Stop == /\ left > 0 /\ Need > 0 /\ pos > Limit
        /\ Finish([res |-> IF fail = 0 THEN "end" ELSE "fail", val |-> <<>>, at |-> 0])
        /\ UNCHANGED <<job, pos, buf, str, vals>>
Elem(v) == /\ vals' = Append(vals, v) /\ left' = left - 1 /\ buf' = <<>> /\ str' = <<>>
           /\ IF left = 1 THEN out' = Append(out, [res |-> "ok", val |-> Append(vals, v), at |-> 0]) /\ i' = i + 1
              ELSE UNCHANGED <<out, i>>
           /\ UNCHANGED <<job, pos>>
Take == /\ left > 0 /\ Need = 0
        /\ IF T # "string" THEN Elem(IF T = "bool" THEN <<Truth(buf[1])>> ELSE IF Big THEN buf ELSE Rev(buf))
           ELSE IF buf[1] # 0 THEN /\ str' = Append(str, buf[1]) /\ buf' = <<>>
                                   /\ UNCHANGED <<job, i, pos, vals, left, out>>
           ELSE IF ValidUpTo(str, 1) = Len(str) THEN Elem(str)
           ELSE /\ Finish([res |-> "utf8", val |-> <<>>, at |-> ValidUpTo(str, 1)])
                /\ UNCHANGED <<job, pos, buf, str, vals>>
Next == Begin \/ Give \/ Stop \/ Take
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what the bytes alone say
RECURSIVE Expect(_, _)
Expect(k, p) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET r == Read(ops[k][1], ops[k][2], SubSeq(B, 1, Limit), p, Big)
           o == [res |-> IF r.res = "end" /\ fail # 0 THEN "fail" ELSE r.res, val |-> r.val, at |-> r.at]
       IN IF r.res = "end" THEN <<o>> ELSE <<o>> \o Expect(k + 1, r.pos)
Faithful == LET e == Expect(1, 2) IN /\ Len(out) <= Len(e) /\ \A k \in 1..Len(out) : out[k] = e[k]
\* a finished read has consumed exactly its bytes
RECURSIVE PosAfter(_, _)
PosAfter(k, p) == IF k = 0 THEN p ELSE
  LET q == PosAfter(k - 1, p) IN Read(ops[k][1], ops[k][2], B, q, Big).pos
Consumed == left = 0 /\ Alive => pos = PosAfter(Len(out), 2)
Ends == (~ENABLED Next) => Len(out) = Len(Expect(1, 2))
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN,
  [ops |-> SetToSeq(UNION { [1..n -> Ops] : n \in 1..NOPS }),
   streams |-> SetToSeq({ <<x>> \o s : x \in {0, 1}, s \in Streams })])
PlanSpec == (Init /\ ops = <<>> /\ B = <<0>>) /\ [][FALSE]_vars
================================================================================
