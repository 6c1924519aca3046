---------------------------------- MODULE MCIK ---------------------------------
(* The two solvers over small integers.                                         *)
(*   "bone": bones and target distance; the law of cosines with a clamped       *)
(*           cosine puts the end joint at the clamped distance, step by step.   *)
(*   "soft": walks the target outwards; softening is continuous, monotone and   *)
(*           never beyond the chain.                                            *)
(*   "aim":  forward axis, offset and target on a grid; the axis meets the      *)
(*           target's sphere iff the job calls the target reached.              *)
EXTENDS IK, FiniteSets, TLC, Json, IOUtils
CONSTANTS Bone, Dist, Step, Grid
VARIABLES mode, pc, c, v
vars == <<mode, pc, c, v>>
Axes == { <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>> }
Vecs(k) == {<<x, y, z>> : x, y, z \in (0 - k)..k}
InitBone == mode = "bone" /\ pc = "soften" /\ v = [d2 |-> 0, num |-> 0, e2 |-> 0, reached |-> FALSE]
            /\ c \in [a : 1..Bone, b : 1..Bone, d : 0..Dist, w : {0, 1, 2, 3}]
InitSoft == mode = "soft" /\ pc = "walk" /\ v = [d |-> 0, s |-> 0] /\ c \in [da : {k * 1024 : k \in 0..8}]
InitAim == mode = "aim" /\ pc = "offset" /\ v = [ao |-> 0, ac2 |-> 0, reached |-> FALSE]
           /\ c \in [f : Axes, o : Vecs(Grid), t : Vecs(Grid)]
Init == InitBone \/ InitSoft \/ InitAim
\* distances are exact here (no softening): Reached first, then the angle, then where the end is
BoneReach == /\ mode = "bone" /\ pc = "soften" /\ pc' = "mid"
             /\ v' = [v EXCEPT !.reached = c.w >= 2 /\ c.d <= c.a + c.b /\ c.d > Abs3(c.a - c.b)]
BoneMid == /\ mode = "bone" /\ pc = "mid" /\ pc' = "start"
           /\ LET n == c.a * c.a + c.b * c.b - c.d * c.d       \* 2ab times the cosine of the middle angle
                  m == 2 * c.a * c.b
              IN v' = [v EXCEPT !.num = Max2(0 - m, Min2(m, n))]
BoneStart == /\ mode = "bone" /\ pc = "start" /\ pc' = "done"
             /\ v' = [v EXCEPT !.e2 = c.a * c.a + c.b * c.b - v.num]
SoftWalk == /\ mode = "soft" /\ v.d < 4 * U
            /\ v' = [d |-> v.d + Step, s |-> Soft(v.d + Step, c.da)] /\ UNCHANGED pc
AimOffset == /\ mode = "aim" /\ pc = "offset" /\ pc' = "done"
             /\ LET ao == Dot(c.f, c.o) IN
                v' = [ao |-> ao, ac2 |-> Dot(c.o, c.o) - ao * ao, reached |-> Dot(c.o, c.o) - ao * ao <= Dot(c.t, c.t)]
Next == (BoneReach \/ BoneMid \/ BoneStart \/ SoftWalk \/ AimOffset) /\ UNCHANGED <<mode, c>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Sq(x) == x * x
BoneRight == (mode = "bone" /\ pc = "done") =>
   /\ v.e2 = Min2(Sq(c.a + c.b), Max2(Sq(c.a - c.b), Sq(c.d)))
   /\ v.reached => v.e2 = Sq(c.d)
   /\ (c.w >= 2 /\ v.e2 = Sq(c.d) /\ c.d # Abs3(c.a - c.b)) => v.reached
SoftRight == mode = "soft" =>
   /\ v.s <= U \/ c.da = U
   /\ v.s >= Min2(v.d, c.da)
\* the curve leaves the line with slope 4/3
SoftSteps == [][mode = "soft" => v'.s >= v.s - 2 /\ v'.s - v.s <= (4 * Step) \div 3 + 6]_vars
\* the point of the axis nearest to the joint
AimRight == (mode = "aim" /\ pc = "done") =>
   LET near == << c.o[1] - v.ao * c.f[1], c.o[2] - v.ao * c.f[2], c.o[3] - v.ao * c.f[3] >> IN
   /\ Dot(near, c.f) = 0 /\ Dot(near, near) = v.ac2
   /\ v.reached = (Dot(near, near) <= Dot(c.t, c.t))
   \* unreached only if the sphere through the target lies inside the axis's distance: then the offset is outside it too
   /\ ~v.reached => Dot(c.o, c.o) > Dot(c.t, c.t)
-----------------------------------------------------------------------------
PlanTwo == [a : 1..3, b : 1..3, d : 0..7, s4 : 0..4, w2 : {-1, 0, 1, 2, 3}, bend : 0..2]
PlanAim == { [f |-> f, o |-> o, t |-> t, w2 |-> ((t[1] + 2 * t[2] + t[3] + o[1] + o[2] + 20) % 5) - 1] :
             f \in {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>},
             o \in {<<x, y, z>> : x \in -2..2, y \in 0..2, z \in -1..0},
             t \in {<<x, y, z>> : x \in -2..2, y \in {-1, 0, 2}, z \in {0, 1, 3}} }
ASSUME IOEnv.PLAN = "" \/ JsonSerialize(IOEnv.PLAN, [two |-> PlanTwo, aim |-> PlanAim])
PlanSpec == (mode = "plan" /\ pc = "" /\ c = 0 /\ v = 0) /\ [][FALSE]_vars
================================================================================
