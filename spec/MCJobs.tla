--------------------------------- MODULE MCJobs --------------------------------
(* A job object over its life: members are set and cleared one at a time, and   *)
(* run checks them in the order the code does, taking locks as it goes, before  *)
(* it writes anything.  Checked: a run succeeds exactly when the configuration  *)
(* is valid, a failed run has written nothing, and no lock outlives the run.    *)
(* The configurations (all of them, for the lattices that are small enough) are *)
(* the ones replayed on the code.                                               *)
EXTENDS Jobs, TLC, Json, IOUtils, SequencesExt
CONSTANTS KINDS

NoPoison == <<>>
\* five joints / tracks: two SoA elements
Sampling == { [job |-> "sampling", anim |-> a, ctx |-> x, out |-> o, poison |-> NoPoison] :
                a \in {-1, 0, 5}, x \in {-1, 0, 4, 5, 8, 20}, o \in {-1, 0, 1, 2, 3} }
Layers1 == { <<[len |-> t, jw |-> j, w |-> w]>> : t \in {0, 1, 2, 3}, j \in {0, 1, 2, 3}, w \in {-1, 0, 1} }
GoodLayer == [len |-> 2, jw |-> 0, w |-> 1]
Bl(s, x, t, o, l, a) == [job |-> "blending", skel |-> s, ctx |-> x, th |-> t, out |-> o, layers |-> l, adds |-> a, poison |-> NoPoison]
BlendingBase == { Bl(s, x, t, o, l, <<>>) : s \in {-1, 0, 5}, x \in {-1, 0, 1, 2, 4}, t \in {"positive", "zero", "negative", "nan"},
                    o \in {-1, 0, 1, 2, 3}, l \in {<<>>, <<GoodLayer>>} }
BlendingLayers == { Bl(5, 2, "positive", 2, l, a) : l \in Layers1 \cup {<<>>}, a \in Layers1 \cup {<<>>} }
                  \cup { Bl(5, 2, "positive", 2, l \o <<GoodLayer>>, <<>>) : l \in Layers1 }
                  \cup { Bl(5, 2, "positive", 2, <<GoodLayer>> \o l, <<>>) : l \in Layers1 }
                  \cup { Bl(5, 2, "positive", 2, <<>>, l \o <<GoodLayer>>) : l \in Layers1 }
                  \cup { Bl(5, 2, "positive", 2, <<GoodLayer>>, <<GoodLayer>> \o l) : l \in Layers1 }
Ltm == { [job |-> "ltm", skel |-> s, inp |-> i, out |-> o, poison |-> NoPoison] :
           s \in {-1, 0, 5}, i \in {-1, 0, 1, 2, 3}, o \in {-1, 0, 4, 5, 6} }
Sk0 == [job |-> "skinning", vc |-> 2, n |-> 1, mats |-> 2, its |-> -1, idx |-> 12, wts |-> 12, ip |-> 2, inn |-> 2, it |-> 2,
        op |-> 2, on |-> 2, ot |-> 2, bad |-> 0, poison |-> NoPoison]
SkMembers == {"mats", "its", "idx", "wts", "ip", "inn", "it", "op", "on", "ot"}
SkSizes(m, v, n) == IF m = "mats" THEN {-1, 0, 1, 2}
                    ELSE IF m = "its" THEN {-1, 2}
                    ELSE IF m = "idx" THEN {-1} \cup {x \in {0, v * n - 1, v * n, v * n + 1} : x >= 0}
                    ELSE IF m = "wts" THEN {-1} \cup {x \in {0, v * (n - 1) - 1, v * (n - 1), v * (n - 1) + 1} : x >= 0}
                    ELSE {-1} \cup {x \in {v - 1, v, v + 1} : x >= 0}
SkAt(v, n) == [Sk0 EXCEPT !.vc = v, !.n = n, !.idx = v * n, !.wts = v * (IF n > 0 THEN n - 1 ELSE 0)]
\* every pair of members away from a valid configuration
Skinning == UNION { UNION { { [SkAt(v, n) EXCEPT ![p[1]] = x, ![p[2]] = y] :
                                x \in SkSizes(p[1], v, n), y \in SkSizes(p[2], v, n) } :
                            p \in {q \in SkMembers \X SkMembers : q[1] # q[2]} } :
                    v \in {0, 2}, n \in 0..3 }
SkinningHuge == { [SkAt(1, 2) EXCEPT !.vc = v, !.n = n] : v \in {0, 1, 2, Huge}, n \in {0, 1, 2, Huge} }
SkinningBad == { [SkAt(2, n) EXCEPT !.bad = b, !.its = i] : n \in 1..5, b \in 1..2, i \in {-1, 2} }
Track == { [job |-> k, track |-> t, poison |-> NoPoison] : k \in {"tracksampling", "tracktriggering"}, t \in {-1, 0, 1, 3} }
Motion == { [job |-> "motion", layers |-> l, poison |-> NoPoison] : l \in 0..3 }
Axis == {"unit", "zero", "long", "short", "nan", "inf"}
Ik == { [job |-> k, axis |-> a, joint |-> j, poison |-> NoPoison] : k \in {"aim", "twobone"}, a \in Axis, j \in {"rigid", "singular", "nan"} }

Small == Sampling \cup BlendingBase \cup BlendingLayers \cup Ltm \cup Track \cup Motion \cup Ik
All == Small \cup Skinning \cup SkinningHuge \cup SkinningBad

-----------------------------------------------------------------------------
\* the checks of run, in the order of the code: <<takes lock or "", what must hold>>
LayerSteps(ls, name, n) == [i \in 1..Len(ls) |-> <<name, LayerOk(ls[i], n)>>]
Steps(c) ==
  CASE c.job = "sampling" -> << <<"", Has(c.anim)>>, <<"", Has(c.ctx)>>, <<"out", Has(c.out)>>,
                               <<"", Has(c.anim) /\ Soa(c.ctx) >= Soa(c.anim) /\ c.out >= Soa(c.anim)>> >>
    [] c.job = "blending" -> << <<"", Has(c.skel)>>, <<"", Has(c.ctx)>>, <<"out", Has(c.out)>>,
                               <<"", c.th = "positive" /\ c.out >= Soa(c.skel)>> >>
                             \o LayerSteps(c.layers, "layer", Soa(c.skel)) \o LayerSteps(c.adds, "add", Soa(c.skel))
    [] c.job = "ltm" -> << <<"", Has(c.skel)>>, <<"inp", Has(c.inp)>>, <<"out", Has(c.out)>>,
                           <<"", c.inp >= Soa(c.skel) /\ c.out >= c.skel>> >>
    [] c.job = "skinning" ->
         << <<"", c.n # 0 /\ (Has(c.inn) \/ ~Has(c.it))>>,
            <<"mats", c.mats >= 1>>, <<"idx", Has(c.idx) /\ Fits(c.idx, c.vc, c.n)>> >>
         \o (IF c.n > 1 THEN << <<"wts", Has(c.wts) /\ Fits(c.wts, c.vc, c.n - 1)>> >> ELSE <<>>)
         \o << <<"ip", Has(c.ip) /\ c.ip >= c.vc>>, <<"op", Has(c.op) /\ c.op >= c.vc>> >>
         \o (IF Has(c.inn) THEN (IF Has(c.its) THEN << <<"its", TRUE>> >> ELSE <<>>)
                                \o << <<"inn", c.inn >= c.vc>>, <<"on", Has(c.on) /\ c.on >= c.vc>> >> ELSE <<>>)
         \o (IF Has(c.inn) /\ Has(c.it) THEN << <<"it", c.it >= c.vc>>, <<"ot", Has(c.ot) /\ c.ot >= c.vc>> >> ELSE <<>>)
    [] c.job \in {"tracksampling", "tracktriggering"} -> << <<"", Has(c.track)>> >>
    [] c.job = "motion" -> <<>>
    [] c.job \in {"aim", "twobone"} -> << <<"", c.axis = "unit">> >>

VARIABLES c, k, held, wrote, res
vars == <<c, k, held, wrote, res>>
Configs == IF KINDS = "all" THEN All ELSE Small
Init == c \in Configs /\ k = 1 /\ held = {} /\ wrote = FALSE /\ res = "run"
S == Steps(c)
Check == res = "run" /\ k <= Len(S) /\
         LET s == S[k] IN
         IF s[1] # "" /\ s[1] \in { c.poison[i] : i \in DOMAIN c.poison }
         THEN res' = "poison" /\ held' = {} /\ UNCHANGED <<c, k, wrote>>
         ELSE IF ~s[2] THEN res' = "invalid" /\ held' = {} /\ UNCHANGED <<c, k, wrote>>
         ELSE k' = k + 1 /\ held' = (held \cup {s[1]}) \ {""} /\ UNCHANGED <<c, wrote, res>>
Work == res = "run" /\ k = Len(S) + 1 /\
        IF c.job = "skinning" /\ c.bad > 0
        THEN res' = "index" /\ held' = {} /\ UNCHANGED <<c, k, wrote>>
        ELSE wrote' = TRUE /\ res' = "ok" /\ held' = {} /\ UNCHANGED <<c, k>>
Next == Check \/ Work
Spec == Init /\ [][Next]_vars
Agree == res # "run" => (res = "ok" <=> (ValidReported(c) /\ Allowed(c) = {"ok"})) /\ res \in Allowed(c)
Untouched == res \notin {"run", "ok"} => ~wrote
Released == res # "run" => held = {}
LocksUsed == held \subseteq Used(c)
-----------------------------------------------------------------------------
ASSUME IF IOEnv.PLAN = "" THEN TRUE ELSE JsonSerialize(IOEnv.PLAN, [configs |-> SetToSeq(All)])
PlanSpec == (Init /\ c = [job |-> "motion", layers |-> 0, poison |-> NoPoison]) /\ [][FALSE]_vars
================================================================================
