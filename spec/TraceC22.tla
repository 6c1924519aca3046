-------------------------------- MODULE TraceC22 -------------------------------
(* Typed reads of an archive, judged by the bytes alone.                        *)
EXTENDS TraceBase, Reader

\* the bytes the source delivers
Bytes == IF E.fail = 0 THEN Cfg.bytes ELSE SubSeq(Cfg.bytes, 1, E.fail - 1)
Out(r) == [res |-> IF r.res = "end" /\ E.fail # 0 THEN "fail" ELSE r.res, val |-> r.val, at |-> r.at]
RECURSIVE Expect(_, _)
Expect(k, p) ==
  IF k > Len(E.ops) THEN <<>>
  ELSE LET r == Read(E.ops[k][1], E.ops[k][2], Bytes, p, Bytes[1] = 0)
       IN <<Out(r)>> \o (IF r.res = "end" THEN <<>> ELSE Expect(k + 1, r.pos))

Run == /\ HasEvent /\ E.op = "run"
       /\ IF Bytes = <<>>
          THEN E.new.res = (IF E.fail = 0 THEN "end" ELSE "fail") /\ E.out = <<>>
          ELSE /\ E.new = [res |-> "ok", swap |-> ((Bytes[1] = 0) # (Cfg.native = "big"))]
               /\ E.out = Expect(1, 2)
       /\ Advance

\* A stream of reps times the same bytes, read at once as n * reps values (or as one text), with a mark
\* behind: the values of one unit come out reps times, then the mark; cut off by a byte, the last read
\* that needs it is at its end.
Bulk == /\ HasEvent /\ E.op = "bulk"
        /\ LET big == E.order = 0
               text == E.t = "string"
               one == Read(E.t, E.n, <<E.order>> \o E.unit \o (IF text THEN <<0>> ELSE <<>>), 2, big)
           IN IF E.cut THEN E.out = << [res |-> "end", val |-> <<>>, at |-> 0] >>
              ELSE /\ one.res = "ok" /\ E.folds = E.reps
                   /\ E.out = << [res |-> "ok", val |-> one.val, at |-> 0],
                                 [res |-> "ok", val |-> Read("u32", 1, <<E.order>> \o E.mark, 2, big).val, at |-> 0] >>
        /\ Advance

Init == BaseInit
Next == Run \/ Bulk \/ Finished
Spec == Init /\ [][Next]_<<sc, l>>
================================================================================
