------------------------------ MODULE Control ------------------------------
(* Controllers assigned to entities and active on the longitudinal and the   *)
(* lateral domain, and what is left to the scenario's own actions, on a      *)
(* straight road.  Lengths in 2^-12 m, speeds in 2^-12 m/s, frame time in    *)
(* 1/16 s.  Domain 1 is longitudinal, 2 lateral.                             *)
(* sc.minor: minor version of the scenario; sc.ent[e] = [x0, y0, v0];        *)
(* sc.ctrl[c] = [e, mode ("ovr" or "add"), own (1: assigned from the start)] *)
(* -- all are of a kind that does nothing by itself (external);              *)
(* sc.act[a], started in the frames in which the environment chooses g = a:  *)
(*  [k |-> "speed", e, tv, T]: to speed tv linearly within T/16 s            *)
(*  [k |-> "side", e, y]: to lateral position y at once                      *)
(*  [k |-> "assign", e, c, m]: assigns controller c (0: the default one)     *)
(*  [k |-> "activate", e, c, m]: activates c (0: unnamed)                    *)
(* with m[d] for domain d: 0 not mentioned, 1 off, 2 on.                     *)
EXTENDS Arith, Sequences, FiniteSets

Tol == 6
Dom == 1..2

Start(sc) ==
  LET E == 1..Len(sc.ent)  C == 1..Len(sc.ctrl)  A == 1..Len(sc.act) IN
  [x |-> [e \in E |-> sc.ent[e].x0], y |-> [e \in E |-> sc.ent[e].y0], v |-> [e \in E |-> sc.ent[e].v0],
   has |-> [e \in E |-> SelectSeq([c \in C |-> c], LAMBDA c : sc.ctrl[c].e = e /\ sc.ctrl[c].own = 1)],       \* most recently assigned last
   on |-> [c \in C |-> [d \in Dom |-> FALSE]],
   run |-> [a \in A |-> FALSE], from |-> [a \in A |-> 0], p |-> [a \in A |-> 0]]

Has(S, e) == {S.has[e][i] : i \in 1..Len(S.has[e])}
Active(S, e, d) == {c \in Has(S, e) : S.on[c][d]}
\* the scenario's actions have no say in that domain
Taken(sc, S, e, d) == \E c \in Active(S, e, d) : sc.ctrl[c].mode = "ovr"

\* controller c of entity e is switched as m says; others give way on the domains it takes over, before version 1.3 altogether
Switch(sc, S, e, c, m) ==
  LET rival == {o \in Has(S, e) \ {c} : \E d \in Dom : m[d] = 2 /\ S.on[o][d]} IN
  [S EXCEPT !.on = [o \in DOMAIN @ |-> [d \in Dom |->
     IF o = c THEN (IF m[d] = 2 THEN TRUE ELSE IF m[d] = 1 THEN FALSE ELSE @[o][d])
     ELSE @[o][d] /\ ~(o \in rival /\ (sc.minor < 3 \/ m[d] = 2))]]]

Begin(sc, S, a) ==
  LET A == sc.act[a]  e == A.e IN
  CASE A.k = "assign" ->
         IF A.c = 0 THEN [S EXCEPT !.has[e] = << >>, !.on = [c \in DOMAIN @ |-> IF c \in Has(S, e) THEN [d \in Dom |-> FALSE] ELSE @[c]]]
         ELSE Switch(sc, [S EXCEPT !.has[e] = Append(SelectSeq(@, LAMBDA c : c # A.c), A.c)], e, A.c, A.m)
    [] A.k = "activate" ->
         LET c == IF A.c # 0 THEN A.c ELSE IF S.has[e] = << >> THEN 0 ELSE S.has[e][Len(S.has[e])] IN
         IF c \in Has(S, e) THEN Switch(sc, S, e, c, A.m) ELSE S
    [] A.k = "side" -> IF Taken(sc, S, e, 2) THEN S ELSE [S EXCEPT !.y[e] = A.y]
    [] A.k = "speed" ->
         IF Taken(sc, S, e, 1) THEN [S EXCEPT !.run = [b \in DOMAIN @ |-> @[b] /\ sc.act[b].e # e]]
         ELSE [S EXCEPT !.run = [b \in DOMAIN @ |-> IF b = a THEN A.T > 0 ELSE @[b] /\ sc.act[b].e # e],
                        !.from[a] = S.v[e], !.p[a] = 0, !.v[e] = IF A.T = 0 THEN A.tv ELSE @]

RECURSIVE Ramps(_, _, _, _)
Ramps(sc, S, a, dt) ==
  IF a > Len(sc.act) THEN S
  ELSE Ramps(sc, IF ~S.run[a] THEN S
                 ELSE LET A == sc.act[a]  p == Min(S.p[a] + dt, A.T) IN
                      IF Taken(sc, S, A.e, 1) THEN [S EXCEPT !.run[a] = FALSE]
                      ELSE [S EXCEPT !.p[a] = p, !.v[A.e] = S.from[a] + SMulDiv(A.tv - S.from[a], p, A.T), !.run[a] = p < A.T], a + 1, dt)

\* speed by which dx and dy are covered, judged roughly
Fast(dx, dy, dt, ob) == LET lo == (Max(dx, dy) * 16) \div dt  hi == ((dx + dy) * 16) \div dt IN IF ob >= lo /\ ob <= hi THEN ob ELSE lo
\* a frame: rep = 0 or the entity whose position is reported before it: rx further, at ry
Frame(sc, S, op, obV) ==
  LET A == IF op.g # 0 /\ ~S.run[op.g] THEN Begin(sc, S, op.g) ELSE S
      B == Ramps(sc, A, 1, op.dt)
      way(e) == SMulDiv(B.v[e], op.dt, 16)
      C == [B EXCEPT !.x = [e \in DOMAIN @ |-> IF op.rep = e THEN @[e] + op.rx ELSE IF Taken(sc, B, e, 1) THEN @[e] ELSE @[e] + way(e)],
                     !.y = [e \in DOMAIN @ |-> IF op.rep = e THEN op.ry ELSE @[e]]]
  IN \* what moves it from outside also determines its speed
     [C EXCEPT !.v = [e \in DOMAIN @ |-> IF ~Taken(sc, B, e, 1) THEN @[e] ELSE Fast(Abs(C.x[e] - S.x[e]), Abs(C.y[e] - S.y[e]), op.dt, obV[e])]]

Adopt(ob, x, tol) == IF Near(ob, x, tol) THEN ob ELSE x

\* observed: x, y and speed of every entity, whether a controller is active on its longitudinal domain, and which actions run
Step(sc, S, op, ob) ==
  LET ne == Len(sc.ent)  na == Len(sc.act)
      good == Len(ob) = 4 * ne + na
      B == IF op.o = "init" THEN S ELSE Frame(sc, S, op, IF good THEN SubSeq(ob, 2 * ne + 1, 3 * ne) ELSE S.v)
      C == IF ~good THEN B ELSE
           [B EXCEPT !.x = [e \in 1..ne |-> Adopt(ob[e], @[e], Tol)], !.y = [e \in 1..ne |-> Adopt(ob[ne + e], @[e], Tol)],
                     !.v = [e \in 1..ne |-> Adopt(ob[2 * ne + e], @[e], IF Taken(sc, B, e, 1) THEN Max(Tol, (16 * Tol) \div Max(1, op.dt)) ELSE Tol)]]
  IN [s |-> C, r |-> C.x \o C.y \o C.v \o [e \in 1..ne |-> IF Active(C, e, 1) # {} THEN 1 ELSE 0] \o [a \in 1..na |-> IF C.run[a] THEN 1 ELSE 0]]
=============================================================================
