------------------------------- MODULE MCDocuments -----------------------------
(* Documents as the library writes them, then changed a few times: a length, the *)
(* count, all of it consistently, the place of an array.                        *)
EXTENDS Documents, TLC, Json, IOUtils, SequencesExt
CONSTANTS KINDS, COUNTS, DEPTH
VARIABLES kind, form, count, arrs, root, did
vars == <<kind, form, count, arrs, root, did>>

\* elements as large as this model can afford
Elem(k, i) == IF k # "context" THEN <<1, 1>>
              ELSE IF i \in {1, 3} THEN <<4, 4>> ELSE IF i = 2 THEN <<8, 4>> ELSE IF i < 7 THEN <<2, 2>> ELSE <<1, 1>>
RECURSIVE Place(_, _, _, _)
Place(k, ls, i, at) == IF i > Len(ls) THEN <<>>
  ELSE LET e == Elem(k, i) p == Up(at, e[2]) * e[2] IN
       << <<p, ls[i], e[1], e[2]>> >> \o Place(k, ls, i + 1, p + ls[i] * e[1])
Written(k, n) == Place(k, Shape(k, n), 1, 0)
RootOf(as) == Up(Ends(as[Len(as)]), 4) * 4

LenBy == {"1", "-1", "8", "0", "big"}
CountBy == {"1", "-1", "4", "-4", "0", "big"}
Places == {"zero", "minus", "next", "end", "past", "odd", "early"}
BIG == 100000
By(x, b) == LET y == IF b = "1" THEN x + 1 ELSE IF b = "-1" THEN x - 1 ELSE IF b = "8" THEN x + 8
                    ELSE IF b = "4" THEN x + 4 ELSE IF b = "-4" THEN x - 4 ELSE IF b = "0" THEN 0 ELSE BIG
            IN IF y < 0 THEN 0 ELSE y
At(as, i, p, r) == IF p = "zero" THEN 0 ELSE IF p = "minus" THEN 0 - as[i][4]
                  ELSE IF p = "next" THEN as[(i % Len(as)) + 1][1]
                  ELSE IF p = "end" THEN r ELSE IF p = "past" THEN r + 16
                  ELSE IF p = "odd" THEN as[i][1] + 1 ELSE as[i][1] - as[i][4]

Init == /\ kind \in KINDS /\ count \in COUNTS /\ form \in {"text", "bytes"}
        /\ (form = "bytes") => (kind = "context")
        /\ arrs = Written(kind, count) /\ root = RootOf(arrs) /\ did = <<>>
More(x) == Len(did) < DEPTH /\ did' = Append(did, x) /\ UNCHANGED <<kind, form, root>>
Len1 == \E i \in 1..Len(arrs), b \in LenBy : /\ (form = "text") => (b # "big")
                                            /\ More(<<"len", Names(kind)[i], b>>)
                                            /\ arrs' = [arrs EXCEPT ![i][2] = By(@, b)] /\ UNCHANGED count
Count1 == /\ Says(kind)
          /\ \E b \in CountBy : More(<<"count", "", b>>) /\ count' = By(count, b) /\ UNCHANGED arrs
All1 == \E b \in {"1", "4", "-4"} :
          /\ More(<<"all", "", b>>)
          /\ LET n == By(IF Says(kind) THEN count ELSE arrs[1][2], b) s == Shape(kind, n) IN
             /\ arrs' = [i \in 1..Len(arrs) |-> [arrs[i] EXCEPT ![2] = s[i]]]
             /\ count' = IF Says(kind) THEN n ELSE count
Move1 == /\ form = "bytes"
         /\ \E i \in 1..Len(arrs), p \in Places : /\ More(<<"at", Names(kind)[i], p>>)
                                                  /\ arrs' = [arrs EXCEPT ![i][1] = At(arrs, i, p, root)] /\ UNCHANGED count
Next == Len1 \/ Count1 \/ All1 \/ Move1
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what the library writes is accepted; in text, all that fits together is
Whole == did = <<>> => Accepts(kind, count, arrs, root) /\ Fits(kind, count, Lens(arrs))
\* a document changed consistently fits
Consistent == (\A i \in 1..Len(did) : did[i][1] = "all") => Fits(kind, count, Lens(arrs))
\* what is accepted can be read: it fits together, lies within the bytes, and is no two arrays at once
Sound == (form = "bytes" /\ Accepts(kind, count, arrs, root)) =>
           /\ AllLie(arrs, root) /\ Fits(kind, count, Lens(arrs))
           /\ \A i, j \in 1..Len(arrs) : i < j => Disjoint(arrs[i], arrs[j])
\* no single change of a length of a context or a track goes unnoticed
Noticed == (Len(did) = 1 /\ Says(kind) /\ did[1][1] = "len" /\ Lens(arrs) # Lens(Written(kind, count))) => ~Fits(kind, count, Lens(arrs))
-----------------------------------------------------------------------------
PrintEdge == PrintT("EDGE " \o form \o "|" \o kind \o "|" \o ToJson(did'))
================================================================================
