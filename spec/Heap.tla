---------------------------------- MODULE Heap ---------------------------------
(* Memory as the allocator's contract sees it, and the objects that live in it. *)
(* A heap is a set of live blocks <<number, size, align>>; blocks are numbered   *)
(* when they are taken and numbers are never reused.                            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(a) == IF a = 1 THEN TRUE ELSE a > 1 /\ a % 2 = 0 /\ Pow2(a \div 2)

\* A log of <<1, number, size, align>> (a block is taken) and <<0, number, size, align>>
\* (it is given back).
Pick(log, what) == { i \in 1..Len(log) : log[i][1] = what }
Blocks(log, what) == { SubSeq(log[i], 2, 4) : i \in Pick(log, what) }
Ids(bs) == { b[1] : b \in bs }
\* A request for no bytes at all is outside the allocator's contract, and what is
\* given back is what was taken, once, with the size and alignment it was taken with.
Run(heap, log) ==
  LET T == Blocks(log, 1) F == Blocks(log, 0) IN
  [ok |-> /\ Cardinality(Ids(T)) = Cardinality(Pick(log, 1)) /\ Ids(T) \cap Ids(heap) = {}
          /\ { t \in T : t[2] <= 0 \/ ~Pow2(t[3]) } = {}
          /\ Cardinality(Ids(F)) = Cardinality(Pick(log, 0)) /\ F \subseteq heap \cup T,
   heap |-> (heap \cup T) \ F]

\* A view <<name, block, offset, length, align, aligned>> of an object that owns the
\* blocks bs: inside one of them, at a place aligned because the block is, not by luck.
ViewOk(bs, v) ==
  IF v[4] = 0 THEN v[6]
  ELSE \E b \in bs : /\ b[1] = v[2]
                     /\ v[3] >= 0 /\ v[3] + v[4] <= b[2]
                     /\ v[3] % v[5] = 0 /\ b[3] % v[5] = 0 /\ v[6]
Apart(v, w) == v[4] = 0 \/ w[4] = 0 \/ v[2] # w[2] \/ v[3] + v[4] <= w[3] \/ w[3] + w[4] <= v[3]
ViewsOk(bs, vs) == /\ \A i \in 1..Len(vs) : ViewOk(bs, vs[i])
                   /\ \A i, j \in 1..Len(vs) : i < j => Apart(vs[i], vs[j])
-----------------------------------------------------------------------------
\* Laying out arrays one behind the other in one block: fields are <<count, size, align>>.
Up(x, a) == ((x + a - 1) \div a) * a
RECURSIVE Place(_, _, _)
Place(fs, k, at) == IF k > Len(fs) THEN <<>>
  ELSE LET o == Up(at, fs[k][3]) IN <<o>> \o Place(fs, k + 1, o + fs[k][1] * fs[k][2])
RECURSIVE Extent(_, _, _)
Extent(fs, k, at) == IF k > Len(fs) THEN at ELSE Extent(fs, k + 1, Up(at, fs[k][3]) + fs[k][1] * fs[k][2])
RECURSIVE Widest(_, _)
Widest(fs, k) == IF k > Len(fs) THEN 1 ELSE LET w == Widest(fs, k + 1) IN IF fs[k][3] > w THEN fs[k][3] ELSE w
================================================================================
