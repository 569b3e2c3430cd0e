-------------------------------- MODULE Cond --------------------------------
(* Entity conditions: their value in every frame, as a function of where the *)
(* entities are and how they move.                                           *)
(* Lengths in 1/32 m, speeds and accelerations in m/s and m/s2, time in      *)
(* 1/8 s, headings in quarter turns, angles in 1/32 turn.  The road is       *)
(* straight along x, from 0 to sc.len, sc.half wide on each side, lanes are  *)
(* sc.lw wide.                                                               *)
(* sc.ent[e] = [cx, cy, l, w, ty (0 vehicle, 1 pedestrian), drv (driven by   *)
(* the default controller; the others are placed by the environment)] + the  *)
(* initial state; sc.cond = the conditions.                                  *)
(* Truth values: 1, 0 and 2: not determined here (ties, or motions for which *)
(* the quantity has no meaning).                                             *)
EXTENDS Arith, Sequences, FiniteSets

Cmp(rule, a, b) == CASE rule = "equalTo" -> (IF a = b THEN 1 ELSE 0)
                     [] rule = "notEqualTo" -> (IF a # b THEN 1 ELSE 0)
                     [] a = b -> 2
                     [] rule \in {"lessThan", "lessOrEqual"} -> (IF a < b THEN 1 ELSE 0)
                     [] OTHER -> (IF a > b THEN 1 ELSE 0)

Rot(h, a, b) == CASE h = 0 -> <<a, b>> [] h = 1 -> <<-b, a>> [] h = 2 -> <<-a, -b>> [] OTHER -> <<b, -a>>
Unrot(h, a, b) == Rot((4 - h) % 4, a, b)

\* bounding box in the world: <<xmin, xmax, ymin, ymax>>
Box(sc, E, e) ==
  LET D == sc.ent[e]  c == Rot(E[e].h, D.cx, D.cy)
      hx == (IF E[e].h % 2 = 0 THEN D.l ELSE D.w) \div 2
      hy == (IF E[e].h % 2 = 0 THEN D.w ELSE D.l) \div 2
  IN <<E[e].x + c[1] - hx, E[e].x + c[1] + hx, E[e].y + c[2] - hy, E[e].y + c[2] + hy>>
\* signed gap from interval [a1, a2] to [b1, b2]; 0 if they meet
Gap(a1, a2, b1, b2) == IF b1 > a2 THEN b1 - a2 ELSE IF a1 > b2 THEN b2 - a1 ELSE 0
\* boxes that touch without overlapping are left out
Touch(sc, E, a, b) == LET A == Box(sc, E, a)  B == Box(sc, E, b) IN A[1] = B[2] \/ A[2] = B[1] \/ A[3] = B[4] \/ A[4] = B[3]
Collide(sc, E, a, b) == LET A == Box(sc, E, a)  B == Box(sc, E, b) IN Gap(A[1], A[2], B[1], B[2]) = 0 /\ Gap(A[3], A[4], B[3], B[4]) = 0

\* squared length, if it fits (beyond any threshold otherwise)
Sq2(a, b) == IF Abs(a) > 20000 \/ Abs(b) > 20000 THEN 1000000000 ELSE a * a + b * b

\* a position: a fixed point, or one relative to an entity (along the world's axes, or along the entity's)
Point(E, p) == CASE p.k = "abs" -> <<p.x, p.y>>
                 [] p.k = "relw" -> <<E[p.e].x + p.x, E[p.e].y + p.y>>
                 [] OTHER -> LET r == Rot(E[p.e].h, p.x, p.y) IN <<E[p.e].x + r[1], E[p.e].y + r[2]>>

\* distance from entity e to the target of c: [d: length or, if sq, its square; sg: 1 in front, -1 behind, 0 not determined]
Dist(sc, E, c, e) ==
  LET toObj == c.ref # 0
      q  == IF toObj THEN <<E[c.ref].x, E[c.ref].y>> ELSE Point(E, c.pt)
      A  == Box(sc, E, e)
      B  == IF toObj THEN Box(sc, E, c.ref) ELSE <<q[1], q[1], q[2], q[2]>>
      wx == IF c.free THEN Gap(A[1], A[2], B[1], B[2]) ELSE q[1] - E[e].x
      wy == IF c.free THEN Gap(A[3], A[4], B[3], B[4]) ELSE q[2] - E[e].y
      own == Unrot(E[e].h, wx, wy)
      front == IF own[1] > 0 THEN 1 ELSE IF own[1] < 0 THEN -1 ELSE IF c.free /\ toObj THEN 1 ELSE 0
      fwd  == IF E[e].h = 0 THEN 1 ELSE IF E[e].h = 2 THEN -1 ELSE 0
      same == IF c.free THEN 1 ELSE 0              \* overlapping: not behind; side by side to the last digit: not determined
      Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE same
  IN CASE c.dt = "euclidianDistance" -> [sq |-> TRUE, d |-> Sq2(wx, wy), sg |-> IF wx = 0 /\ wy = 0 THEN same ELSE front]
       [] c.cs = "entity" /\ c.dt = "longitudinal" -> [sq |-> FALSE, d |-> Abs(own[1]), sg |-> Sg(own[1])]
       [] c.cs = "entity" /\ c.dt = "lateral" -> [sq |-> FALSE, d |-> Abs(own[2]), sg |-> Sg(own[2])]
       [] c.dt = "longitudinal" -> [sq |-> FALSE, d |-> Abs(wx), sg |-> IF wx = 0 THEN same ELSE fwd * Sg(wx)]
       [] OTHER -> [sq |-> FALSE, d |-> Abs(wy), sg |-> 0]

\* measured along the road, beyond whose ends nothing is defined
OnRoad(sc, E, c, e) ==
  LET A == Box(sc, E, e)  B == IF c.ref # 0 THEN Box(sc, E, c.ref) ELSE LET q == Point(E, c.pt) IN <<q[1], q[1]>>
  IN c.cs = "entity" \/ c.dt = "euclidianDistance" \/ (A[1] > 0 /\ A[2] < sc.len /\ B[1] > 0 /\ B[2] < sc.len)

\* free space that is just about to begin
Edge(sc, E, c, e) ==
  LET A == Box(sc, E, e)  B == IF c.ref # 0 THEN Box(sc, E, c.ref) ELSE LET q == Point(E, c.pt) IN <<q[1], q[1], q[2], q[2]>>
  IN c.free /\ (A[1] = B[2] \/ A[2] = B[1] \/ A[3] = B[4] \/ A[4] = B[3])

\* d / speed compared with value
Ratio(rule, D, speed, val) == IF D.sq THEN Cmp(rule, D.d, (val * speed) * (val * speed)) ELSE Cmp(rule, D.d, val * speed)

Along(E, e) == Unrot(E[e].h, E[e].vx, E[e].vy)
Still(E, e) == E[e].vx = 0 /\ E[e].vy = 0

LaneOf(sc, y) == LET n == (Abs(y) + sc.lw - 1) \div sc.lw IN IF y > 0 THEN n ELSE -n
LaneDiff(a, b) == IF (a > 0) = (b > 0) THEN b - a ELSE IF b > a THEN b - a - 1 ELSE b - a + 1

Circ(a) == LET r == a % 32 IN Min(r, 32 - r)

RECURSIVE Fold(_, _, _)
Fold(vals, all, i) ==
  IF i > Len(vals) THEN (IF all THEN 1 ELSE 0)
  ELSE LET rest == Fold(vals, all, i + 1) IN
       IF all THEN (IF vals[i] = 0 THEN 0 ELSE IF rest = 0 THEN 0 ELSE IF vals[i] = 2 THEN 2 ELSE rest)
       ELSE (IF vals[i] = 1 THEN 1 ELSE IF rest = 1 THEN 1 ELSE IF vals[i] = 2 THEN 2 ELSE rest)

Dir(d, v) == IF d = "longitudinal" THEN v[1] ELSE v[2]

\* velocities of an entity stopped by the end of the road are not determined
Stopped(S, e) == S.E[e].end >= 0

\* value of condition c for triggering entity e
One(sc, S, c, e) ==
  LET E == S.E IN
  CASE c.k \in {"dist", "headway", "ttc"} /\ ~OnRoad(sc, E, c, e) -> 2
    [] c.k \in {"headway", "ttc"} /\ Edge(sc, E, c, e) -> 2
    [] c.k = "dist" -> LET D == Dist(sc, E, c, e) IN Cmp(c.rule, D.d, IF D.sq THEN c.val * c.val ELSE c.val)
    [] c.k = "headway" -> LET D == Dist(sc, E, c, e)
                          IN IF Stopped(S, e) THEN 2
                             ELSE IF E[e].sp <= 0 THEN 0 ELSE IF D.sg = -1 THEN 0 ELSE IF D.sg = 0 THEN 2 ELSE Ratio(c.rule, D, E[e].sp, c.val)
    [] c.k = "ttc" ->
         LET D == Dist(sc, E, c, e)
             toObj == c.ref # 0
             aligned == ~toObj \/ Still(E, c.ref) \/ ((E[e].h - E[c.ref].h) % 2 = 0 /\ Along(E, e)[2] = 0 /\ Along(E, c.ref)[2] = 0)
             closing == E[e].sp - (IF toObj THEN Unrot(E[e].h, E[c.ref].vx, E[c.ref].vy)[1] ELSE 0)
         IN IF ~aligned \/ Stopped(S, e) \/ (toObj /\ Stopped(S, c.ref)) THEN 2
            ELSE IF D.d = 0 \/ closing = 0 THEN 0
            ELSE IF D.sg = 0 THEN 2
            ELSE IF D.sg * closing < 0 THEN 0
            ELSE Ratio(c.rule, D, Abs(closing), c.val)
    [] c.k = "reach" -> LET q == Point(E, c.pt)  dx == q[1] - E[e].x  dy == q[2] - E[e].y
                            near == Cmp("lessThan", Sq2(dx, dy), c.val * c.val)
                        IN IF near = 1 /\ c.hd >= 0 /\ (c.hd # E[e].h \/ c.tilt # 0) THEN 0 ELSE near     \* entities are upright
    [] c.k = "speed" -> IF Stopped(S, e) THEN 2 ELSE IF c.dir = "any" THEN Cmp(c.rule, 2 * E[e].sp, c.val) ELSE Cmp(c.rule, 2 * Dir(c.dir, Along(E, e)), c.val)
    [] c.k = "relspeed" ->
         IF Stopped(S, e) \/ Stopped(S, c.ref) THEN 2
         ELSE IF c.dir = "any" THEN Cmp(c.rule, 2 * (E[e].sp - E[c.ref].sp), c.val)
         ELSE Cmp(c.rule, 2 * (Dir(c.dir, Unrot(E[c.ref].h, E[e].vx, E[e].vy)) - Dir(c.dir, Along(E, c.ref))), c.val)
    [] c.k = "acc" ->
         LET a == Unrot(E[e].h, E[e].ax, E[e].ay)  n == E[e].ax * E[e].ax + E[e].ay * E[e].ay
         IN IF sc.ent[e].drv THEN 2
            ELSE IF c.dir # "any" THEN Cmp(c.rule, 2 * Dir(c.dir, a), c.val)
            ELSE IF n = 0 THEN Cmp(c.rule, 0, c.val)
            ELSE IF a[1] = 0 THEN 2
            ELSE IF a[1] > 0 THEN (IF c.val < 0 THEN Cmp(c.rule, 1, 0) ELSE Cmp(c.rule, 4 * n, c.val * c.val))
            ELSE (IF c.val > 0 THEN Cmp(c.rule, 0, 1) ELSE Cmp(c.rule, c.val * c.val, 4 * n))
    [] c.k = "still" -> IF E[e].still < 0 THEN 0 ELSE Cmp("greaterThan", 2 * (S.T - E[e].still), c.val)
    [] c.k = "off" -> IF E[e].off < 0 THEN 0 ELSE Cmp("greaterThan", 2 * (S.T - E[e].off), c.val)
    [] c.k = "end" -> IF E[e].end < 0 THEN 0 ELSE Cmp("greaterThan", 2 * (S.T - E[e].end), c.val)
    [] c.k = "trav" -> IF ~sc.ent[e].drv THEN 2 ELSE Cmp("greaterOrEqual", E[e].odo, c.val)
    [] c.k = "coll" -> IF c.ref # 0 THEN (IF ~Collide(sc, E, e, c.ref) THEN 0 ELSE IF Touch(sc, E, e, c.ref) THEN 2 ELSE 1)
                       ELSE IF \E b \in DOMAIN E : b # e /\ ~E[b].gone /\ Touch(sc, E, e, b) THEN 2
                       ELSE IF \E b \in DOMAIN E : b # e /\ ~E[b].gone /\ sc.ent[b].ty = c.val /\ Collide(sc, E, e, b) THEN 1 ELSE 0
    [] c.k = "angle" -> LET base == IF c.cs = "lane" /\ E[e].y > 0 THEN 16 ELSE 0
                        IN Cmp("lessThan", Circ(8 * E[e].h - base - c.val), c.tol)
    [] c.k = "clear" ->
         LET me == LaneOf(sc, E[e].y)
             InLane(b) == LET B == Box(sc, E, b) IN B[3] * B[4] > 0 /\ LaneOf(sc, B[3] - 1) = LaneOf(sc, B[4] + 1)
             okk == \A b \in DOMAIN E : E[b].gone \/ (E[b].h % 2 = 0 /\ Abs(E[b].y) < sc.half /\ ~Stopped(S, b) /\ (c.free => InLane(b)))
             fwd == IF E[e].h = 0 THEN 1 ELSE -1
             ds(b) == IF ~c.free THEN fwd * (E[b].x - E[e].x)
                      ELSE LET A == Box(sc, E, e)  B == Box(sc, E, b) IN fwd * Gap(A[1], A[2], B[1], B[2])
             hit(b) == LET dl == LaneDiff(me, LaneOf(sc, E[b].y)) IN
                       /\ ds(b) >= -c.back /\ ds(b) <= c.val
                       /\ c.from <= dl /\ dl <= c.to
                       /\ c.opp \/ (me > 0) = (LaneOf(sc, E[b].y) > 0)
             \* free space: what overlaps in space is in the way, whatever its lane
             near(b) == c.free /\ Collide(sc, E, e, b)
         IN IF ~okk THEN 2 ELSE IF \E b \in DOMAIN E : b # e /\ ~E[b].gone /\ (c.refs = << >> \/ \E n \in DOMAIN c.refs : c.refs[n] = b) /\ near(b) THEN 2
            ELSE IF \E b \in DOMAIN E : b # e /\ ~E[b].gone /\ (c.refs = << >> \/ \E n \in DOMAIN c.refs : c.refs[n] = b) /\ hit(b) THEN 0 ELSE 1

\* Entities that have left the scenario count for nothing: not as triggering ones, not as what is in the way.
Gone(S, e) == S.E[e].gone
Value(sc, S, c) ==
  LET here == SelectSeq(c.trig, LAMBDA e : ~Gone(S, e)) IN
  IF here = << >> \/ (c.ref # 0 /\ Gone(S, IF c.ref = 0 THEN 1 ELSE c.ref)) THEN 0
  ELSE IF c.pt.k # "abs" /\ Gone(S, c.pt.e) THEN 2             \* relative to something that is not there
  ELSE Fold([n \in DOMAIN here |-> One(sc, S, c, here[n])], c.all, 1)

Since(old, now, T) == IF ~now THEN -1 ELSE IF old >= 0 THEN old ELSE T

Start(sc) ==
  [T |-> 0, E |-> [e \in DOMAIN sc.ent |->
     LET D == sc.ent[e] IN [x |-> D.x, y |-> D.y, h |-> D.h, sp |-> D.sp, vx |-> Rot(D.h, D.sp, 0)[1], vy |-> Rot(D.h, D.sp, 0)[2], ax |-> 0, ay |-> 0, odo |-> 0,
                            still |-> IF D.sp = 0 THEN 0 ELSE -1, off |-> IF Abs(D.y) > sc.half THEN 0 ELSE -1, end |-> -1, gone |-> FALSE]]]

\* the environment places the entities it controls
Place(sc, S, rep) ==
  [S EXCEPT !.E = [e \in DOMAIN @ |-> IF sc.ent[e].drv THEN @[e] ELSE
     [@[e] EXCEPT !.x = rep[e].x, !.y = rep[e].y, !.h = rep[e].h, !.sp = rep[e].sp, !.vx = rep[e].vx, !.vy = rep[e].vy, !.ax = rep[e].ax, !.ay = rep[e].ay]]]

\* time passes
Pass(sc, S, dt) ==
  LET T2 == S.T + dt IN
  [T |-> T2, E |-> [e \in DOMAIN S.E |->
     LET X == S.E[e]
         d == X.sp * dt * 4                 \* sp m/s for dt/8 s
         nx == IF ~sc.ent[e].drv THEN X.x ELSE IF X.h = 0 THEN Min(X.x + d, sc.len) ELSE Max(X.x - d, 0)
         past == sc.ent[e].drv /\ (X.end >= 0 \/ (IF X.h = 0 THEN X.x + d > sc.len ELSE X.x - d < 0))
         \* held at the end of the road, an entity is brought to a stop
         held == X.end >= 0 /\ X.vx = 0
         sp2 == IF held THEN 0 ELSE X.sp
     IN [X EXCEPT !.x = nx, !.odo = @ + Abs(nx - X.x), !.sp = sp2, !.vx = IF sc.ent[e].drv /\ nx = X.x THEN 0 ELSE @,
                  !.still = Since(@, sp2 = 0, T2), !.off = Since(@, Abs(X.y) > sc.half, T2), !.end = Since(@, past, T2)]]]

Values(sc, S) == [n \in DOMAIN sc.cond |-> Value(sc, S, sc.cond[n])]

Step(sc, S, op, ob) ==
  IF op.o = "init" THEN [s |-> S, r |-> ob]
  ELSE LET A == Place(sc, S, op.rep)
           v == Values(sc, A)
       IN [s |-> Pass(sc, [A EXCEPT !.E = [e \in DOMAIN @ |-> [@[e] EXCEPT !.gone = @ \/ op.del = e]]], op.dt), r |-> [n \in DOMAIN v |-> IF v[n] = 2 /\ n <= Len(ob) THEN ob[n] ELSE v[n]]]
=============================================================================
