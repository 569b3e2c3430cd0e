------------------------------- MODULE CondMC -------------------------------
(* All placements of two entities (and the motions that matter) on a small   *)
(* grid, and one frame of time.                                              *)
EXTENDS Cond, TLC

CONSTANT Wide

D(l, w, cx, cy, drv) == [l |-> l, w |-> w, cx |-> cx, cy |-> cy, ty |-> 0, drv |-> drv, x |-> 0, y |-> -2, h |-> 0, sp |-> 0]
Sc == [ent |-> <<D(8, 4, 2, 0, FALSE), D(4, 4, 0, 2, FALSE)>>, cond |-> << >>, len |-> 400, half |-> 60, lw |-> 20]

VARIABLES E, n
vars == <<E, n>>
En(x, y, h, sp) == [x |-> x, y |-> y, h |-> h, sp |-> sp, vx |-> Rot(h, sp, 0)[1], vy |-> Rot(h, sp, 0)[2], ax |-> 0, ay |-> 0, odo |-> 0, still |-> -1, off |-> -1, end |-> -1, gone |-> FALSE]
Xs == IF Wide THEN 190..210 ELSE 194..206
Ys == IF Wide THEN -9..9 ELSE -6..6
Sps == IF Wide THEN -2..2 ELSE {-1, 0, 2}
Init == /\ n = 0
        /\ \E h, g \in 0..3, a \in Sps : E = <<En(200, 1, h, a), En(200, 1, g, 0)>>
Next == /\ n = 0 /\ n' = 1
        /\ \E x \in Xs, y \in Ys, b \in Sps : E' = [E EXCEPT ![2] = En(x, y, E[2].h, b)]
Spec == Init /\ [][Next]_vars

C(k, ref, cs, dt, free, rule, val) == [k |-> k, ref |-> ref, cs |-> cs, dt |-> dt, free |-> free, rule |-> rule, val |-> val, pt |-> [k |-> "relo", x |-> 5, y |-> 1, e |-> 2], dir |-> "any"]
S == [T |-> 0, E |-> E]
Vals == {1, 5}
Kinds == {"longitudinal", "lateral", "euclidianDistance"}
Css == {"entity", "road"}
\* 'all' is at least as strong as 'any'
AllImpliesAny == \A k \in {"dist", "ttc", "headway"}, v \in Vals :
   LET c == C(k, 2, "entity", "longitudinal", FALSE, "lessThan", v)
       f == <<One(Sc, S, c, 1), One(Sc, S, [c EXCEPT !.ref = 1], 2)>>
   IN (Fold(f, TRUE, 1) = 1 => Fold(f, FALSE, 1) = 1) /\ (Fold(f, FALSE, 1) = 0 => Fold(f, TRUE, 1) = 0)
\* a rule and its opposite never agree
Complement == \A cs \in Css, dt \in Kinds, fr \in BOOLEAN, v \in Vals :
   LET a == One(Sc, S, C("dist", 2, cs, dt, fr, "lessThan", v), 1)  b == One(Sc, S, C("dist", 2, cs, dt, fr, "greaterThan", v), 1)
   IN IF a = 2 THEN b = 2 ELSE a # b /\ b # 2
\* no free space in any direction, exactly when the boxes collide
CollideIsNoGap == Collide(Sc, E, 1, 2) <=> Dist(Sc, E, C("dist", 2, "entity", "euclidianDistance", TRUE, "lessThan", 1), 1).d = 0
\* the Euclidean distance is made of the longitudinal and the lateral one
Euclid == \A fr \in BOOLEAN, cs \in Css, r \in {0, 2} :
   LET d(t) == Dist(Sc, E, C("dist", r, cs, t, fr, "lessThan", 1), 1).d
   IN d("euclidianDistance") = d("longitudinal") * d("longitudinal") + d("lateral") * d("lateral")
\* free space is measured between boxes: never more than between their centres
FreeIsCloser == \A cs \in Css, dt \in {"longitudinal", "lateral"} :
   LET A == Box(Sc, E, 1)  B == Box(Sc, E, 2)
       mid == Abs((A[1] + A[2]) - (B[1] + B[2])) + Abs((A[3] + A[4]) - (B[3] + B[4]))
   IN 2 * Dist(Sc, E, C("dist", 2, cs, dt, TRUE, "lessThan", 1), 1).d <= mid
Symmetric == \A fr \in BOOLEAN, dt \in Kinds :
   LET a == Dist(Sc, E, C("dist", 2, "road", dt, fr, "lessThan", 1), 1)  b == Dist(Sc, E, C("dist", 1, "road", dt, fr, "lessThan", 1), 2)
   IN a.d = b.d /\ a.sq = b.sq
\* a standing or reversing entity has no headway; entities that draw apart no time to collision
Definite == /\ E[1].sp <= 0 => One(Sc, S, C("headway", 2, "entity", "longitudinal", FALSE, "lessThan", 1000), 1) = 0
            /\ LET c == C("ttc", 2, "entity", "longitudinal", FALSE, "lessThan", 1000)
                   F == [E EXCEPT ![1].x = @ + Rot(E[1].h, E[1].sp, 0)[1], ![1].y = @ + Rot(E[1].h, E[1].sp, 0)[2], ![2].x = @ + E[2].vx, ![2].y = @ + E[2].vy]
               IN One(Sc, S, c, 1) = 1 => Dist(Sc, F, c, 1).d < Dist(Sc, E, c, 1).d \/ Dist(Sc, F, c, 1).sg # Dist(Sc, E, c, 1).sg
=============================================================================
