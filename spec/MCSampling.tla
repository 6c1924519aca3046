------------------------------ MODULE MCSampling ------------------------------
(* Exhaustive exploration of every history of one sampling context over a      *)
(* playlist of animations: any sequence of samples (any ratio of the grid, any *)
(* animation of the playlist) and clears.                                      *)
EXTENDS Sampling, Json, IOUtils

CONSTANTS T,        \* time grid 0..T; ratios are explored on the half grid 0..2T
          N,        \* tracks per channel
          NIFS,     \* numbers of seek frames to explore
          PLAYLISTS \* "single": every channel alone; "pairs": pairs of channels sharing a context

\* every way of placing interior keys on every track
Inner == SUBSET (1..(T - 1))
Tracks == [1..N -> { S \cup {0, T} : S \in Inner }]
\* ratios live on the half grid: double every key time
Dbl(S) == { 2 * x : x \in S }
ChanSet == { [times |-> [t \in 1..N |-> Dbl(tr[t])], nif |-> f] : tr \in Tracks, f \in NIFS }
ChanList == SetToSeq(ChanSet)
\* evaluated once: all channels of the configuration
Chans == TLCEval([i \in 1..Len(ChanList) |-> Chan(N, ChanList[i].times, 2 * T, ChanList[i].nif)])

\* A pair plays a channel against the richest one in the same context.
RichIdx == CHOOSE i \in 1..Len(ChanList) : /\ \A t \in 1..N : ChanList[i].times[t] = Dbl(0..T)
                                           /\ \A f \in NIFS : ChanList[i].nif <= f
Playlists == IF PLAYLISTS = "single" THEN { <<i>> : i \in 1..Len(ChanList) }
             ELSE { <<i, RichIdx>> : i \in 1..Len(ChanList) }

VARIABLES list,   \* the animations (channel indices) this context is used with
          anim,   \* position in the playlist of the animation the cache belongs to, 0 none
          ratio,  \* last sampled ratio
          cache   \* [entries, next, err]
vars == <<list, anim, ratio, cache>>

Init == /\ list \in Playlists
        /\ anim = 0
        /\ ratio = 0
        /\ cache = [entries |-> [t \in 1..N |-> 0], next |-> 0, err |-> FALSE]

\* Sampling animation a at ratio r: switching animation invalidates the cursor only.
Sample(a, r) ==
  LET m == IF a # anim THEN [cache EXCEPT !.next = 0] ELSE cache
  IN /\ cache' = Cached(Chans[list[a]], m, ratio, r)
     /\ anim' = a
     /\ ratio' = r
     /\ UNCHANGED list

Clear == /\ anim' = 0 /\ ratio' = 0
         /\ cache' = [cache EXCEPT !.next = 0]
         /\ UNCHANGED list

Next == (\E a \in 1..Len(list), r \in 0..(2 * T) : Sample(a, r)) \/ Clear
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
NoInternalError == cache.err = FALSE

\* History independence + correctness of the key choice: after a sample the cache is a
\* function of (animation, ratio) only, namely the bracketing keys.
Bracketing == anim # 0 /\ cache.next # 0 =>
  LET c == Chans[list[anim]] IN
  \A t \in 1..N : /\ cache.entries[t] = Right(c, t, ratio)
                  /\ PrevTime(c, cache.entries[t]) <= ratio
                  /\ ratio <= c.keys[cache.entries[t]].time

CursorMatches == anim # 0 /\ cache.next # 0 =>
  LET c == Chans[list[anim]] IN
  cache.next = Cardinality({ k \in 1..Len(c.keys) : c.keys[k].prev = 0 \/ PrevTime(c, k) <= ratio })

-----------------------------------------------------------------------------
(* The labelled state graph is exported so that a replay tour can cover every  *)
(* transition on the real code.                                                *)
PlanOf(l) == [i \in 1..Len(l) |-> [times |-> [t \in 1..N |-> SortedTimes(ChanList[l[i]].times[t])], nif |-> ChanList[l[i]].nif, td |-> 2 * T]]
ASSUME IF IOEnv.PLAN = "" THEN TRUE
       ELSE JsonSerialize(IOEnv.PLAN, [l \in { ToString(p) : p \in Playlists } |->
               PlanOf(CHOOSE p \in Playlists : ToString(p) = l)])
StateId == ToString(<<anim, ratio, cache.next, cache.entries>>)
PrintEdge == IOEnv.PLAN = "" \/ PrintT("EDGE " \o ToString(list) \o "|" \o StateId \o "|" \o StateId' \o "|" \o ToString(<<anim', ratio'>>))
=============================================================================
