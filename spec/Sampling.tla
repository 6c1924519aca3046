------------------------------- MODULE Sampling -------------------------------
(* Keyframe cache of a sampling context, at the grain of the implementation:   *)
(* one action per public operation (sample, switch, clear), whose effect is    *)
(* composed of the cache's internal steps (initialise from the first keys or   *)
(* from a seek frame, forward the cursor, rewind it).                          *)
(*                                                                             *)
(* A channel is the time-sorted key stream of one component (translation,      *)
(* rotation or scale).  Key k of the stream is [trk, time, prev], prev being   *)
(* the stream index of the previous key of the same track, 0 for first keys.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

-----------------------------------------------------------------------------
(* Building a channel from per-track key time sets (the offline tool's rule:   *)
(* stream sorted by the time at which a key becomes needed, i.e. the time of   *)
(* the previous key of its track, then by track).                              *)

SortedTimes(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* All (track, ordinal) pairs with the sort key <<previous time (-1 if none), track>>.
ChanKeys(n, times) ==
  LET ord == [t \in 1..n |-> SortedTimes(times[t])]
      need(p) == IF p[2] = 1 THEN -1 ELSE ord[p[1]][p[2] - 1]
      all == UNION { { <<t, o, need(<<t, o>>)>> : o \in 1..Len(ord[t]) } : t \in 1..n }
      at == SetToSortSeq(all, LAMBDA p, r : p[3] < r[3] \/ (p[3] = r[3] /\ p[1] < r[1]))
      rank(t, o) == CHOOSE k \in 1..Len(at) : at[k][1] = t /\ at[k][2] = o
  IN [k \in 1..Len(at) |->
        [trk |-> at[k][1], time |-> ord[at[k][1]][at[k][2]],
         prev |-> IF at[k][2] = 1 THEN 0 ELSE rank(at[k][1], at[k][2] - 1)]]

PrevTimeK(keys, k) == keys[keys[k].prev].time

\* The right-hand key a track must use at ratio r: the last key whose predecessor is at or before r.
RightK(n, keys, t, r) ==
  LET S == { k \in 1..Len(keys) : keys[k].trk = t /\ keys[k].prev # 0 /\ PrevTimeK(keys, k) <= r }
  IN CHOOSE k \in S : \A j \in S : j <= k

\* Seek frames: nif of them, at T/nif, 2T/nif, ..., T.
Frames(n, keys, T, nif) ==
  [i \in 1..nif |->
     LET at == (i * T) \div nif IN
     [ entries |-> [t \in 1..n |-> RightK(n, keys, t, at)],
       last |-> Cardinality({ k \in 1..Len(keys) : keys[k].prev = 0 \/ PrevTimeK(keys, k) <= at }) ]]

Chan(n, times, T, nif) ==
  LET ks == ChanKeys(n, times) IN
  [n |-> n, T |-> T, keys |-> ks, nif |-> nif, frames |-> Frames(n, ks, T, nif), times |-> times]

PrevTime(c, k) == PrevTimeK(c.keys, k)
Right(c, t, r) == RightK(c.n, c.keys, t, r)

-----------------------------------------------------------------------------
(* The cache: entries (right key per track), next (stream cursor, first key    *)
(* not yet absorbed minus one as in the code: 0 means invalid), ratio.         *)

NoEntries(c) == [t \in 1..c.n |-> 0]

\* Initialise from the first keys (frame 0) or from seek frame f.
InitCache(c, f) ==
  IF f > 0 THEN [entries |-> c.frames[f].entries, next |-> c.frames[f].last, err |-> FALSE]
  ELSE [entries |-> [t \in 1..c.n |-> c.n + t], next |-> 2 * c.n, err |-> FALSE]

RECURSIVE Forward(_, _, _)
Forward(c, m, r) ==
  IF m.next < Len(c.keys) /\ PrevTime(c, m.next + 1) <= r
  THEN LET k == m.next + 1
           t == c.keys[k].trk
       IN Forward(c, [entries |-> [m.entries EXCEPT ![t] = k], next |-> k,
                      err |-> m.err \/ m.entries[t] # c.keys[k].prev], r)
  ELSE m

RECURSIVE Rewind(_, _, _)
Rewind(c, m, r) ==
  IF m.next > 2 * c.n /\ PrevTime(c, m.next) > r
  THEN LET k == m.next
           t == c.keys[k].trk
       IN Rewind(c, [entries |-> [m.entries EXCEPT ![t] = c.keys[k].prev], next |-> k - 1,
                     err |-> m.err \/ m.entries[t] # k], r)
  ELSE [m EXCEPT !.err = m.err \/ (m.next = 2 * c.n /\ PrevTime(c, m.next) > r)]

\* Which (re)initialisation a sample at r from a cache last used at pr performs:
\* -1 none, 0 from the first keys, f > 0 from seek frame f.
SeekFrame(c, next, pr, r) ==
  LET delta == r - pr
      far == c.nif > 0 /\ 2 * AbsI(delta) * c.nif > c.T
      far0 == c.nif = 0 /\ 2 * AbsI(delta) > c.T   \* no seek frame: interval is the whole clip
  IN IF next = 0 \/ far \/ far0
     THEN IF c.nif > 0 THEN (2 * r * c.nif + c.T) \div (2 * c.T)
          ELSE IF next = 0 \/ delta < 0 THEN 0 ELSE -1
     ELSE -1

Cached(c, m, pr, r) ==
  LET f == SeekFrame(c, m.next, pr, r)
      m0 == IF f >= 0 THEN InitCache(c, f) ELSE m
  IN Rewind(c, Forward(c, m0, r), r)

=============================================================================
