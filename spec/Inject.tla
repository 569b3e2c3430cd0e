------------------------------- MODULE Inject -------------------------------
(* Actions that the application injects into a running scenario: speed, lane *)
(* change and lane offset actions of any entity at any time.  They start in  *)
(* the frame after the injection and then act like those of a scenario       *)
(* (Motion.tla, Lateral.tla), in the order of their injection; one of the    *)
(* same kind and entity ends the previous one at once.                       *)
(* sc.ent, sc.w, sc.act as in those modules; op: [o |-> "inj", a] or         *)
(* [o |-> "step", dt] or [o |-> "none", k] (for an entity that is not there).*)
EXTENDS Arith, Sequences
Mo == INSTANCE Motion
La == INSTANCE Lateral

Start(sc) == [m |-> Mo!Start(sc), l |-> La!Start(sc), q |-> << >>, new |-> {}]
Kind(sc, a) == sc.act[a].k
Same(sc, a, b) == Kind(sc, a) = Kind(sc, b) /\ sc.act[a].e = sc.act[b].e
Drop(sc, S, q) == SelectSeq(S.q, LAMBDA b : b \notin q)
Inject(sc, S, a) ==
  LET old == {b \in DOMAIN sc.act : Same(sc, a, b)}
      off(run) == [b \in DOMAIN run |-> run[b] /\ b \notin old]
  IN [S EXCEPT !.q = Append(Drop(sc, S, old), a), !.new = (@ \ old) \cup {a}, !.m.run = off(@), !.l.run = off(@)]

\* action a in this frame: it begins or goes on
One(sc, S, a, dt, ended, seen) ==
  LET speed == Kind(sc, a) = "speed" IN
  IF a \in S.new
  THEN IF speed THEN [S EXCEPT !.new = @ \ {a}, !.m = Mo!Begin(sc, @, a)]
       ELSE IF ~La!Exists(sc, S.l, a) THEN [S EXCEPT !.l.lost = TRUE]       \* (to a lane that is not there: not specified)
       ELSE [S EXCEPT !.new = @ \ {a}, !.l = La!Begin(sc, [@ EXCEPT !.v = S.m.v], a)]
  ELSE IF speed THEN [S EXCEPT !.m = IF Mo!Loose(sc, a) THEN Mo!Bounded(sc, @, a, dt, ended, seen[sc.act[a].e]) ELSE Mo!Advance(sc, @, a, dt, ended)]
       ELSE [S EXCEPT !.l = LET l == [@ EXCEPT !.v = S.m.v] IN IF Kind(sc, a) = "change" THEN IF La!Stretched(sc, l, a, dt) /\ S.m.v[sc.act[a].e] # 0 THEN [l EXCEPT !.lost = TRUE] ELSE La!Change(sc, l, a, dt, ended) ELSE La!Offset(sc, l, a, dt, ended)]
RECURSIVE All(_, _, _, _, _, _)
All(sc, S, n, dt, obRun, obV) == IF n > Len(S.q) THEN S ELSE All(sc, One(sc, S, S.q[n], dt, obRun[S.q[n]] = 0, obV), n + 1, dt, obRun, obV)

Running(sc, S, a) == a \in S.new \/ S.m.run[a] \/ S.l.run[a]
Frame(sc, S, dt, obRun, obV) ==
  LET Z == [S EXCEPT !.l.moved = [e \in DOMAIN @ |-> FALSE], !.l.slack = [e \in DOMAIN @ |-> 0]]
      B == All(sc, Z, 1, dt, obRun, obV)
      C == [B EXCEPT !.l.v = B.m.v]
      D == [C EXCEPT !.l.s = [e \in DOMAIN @ |-> IF C.l.moved[e] THEN @[e] ELSE @[e] + sc.ent[e].dir * Sign(C.m.v[e]) * La!Len12(C.m.v[e], dt)]]
  IN [D EXCEPT !.q = SelectSeq(@, LAMBDA b : Running(sc, D, b))]

Bit(x) == IF x THEN 1 ELSE 0
Ongoing(sc, S, k) == Bit(\E n \in 1..Len(S.q) : k = "any" \/ Kind(sc, S.q[n]) = k)
\* observed: speed, s, t, direction and lane of every entity, which actions run, and what the application is told of them
Step(sc, S, op, ob) ==
  LET ne == Len(sc.ent)  na == Len(sc.act)
      good == Len(ob) = 5 * ne + na + 4
      obRun == IF good THEN SubSeq(ob, 5 * ne + 1, 5 * ne + na) ELSE [a \in 1..na |-> 0]
      B == CASE S.l.lost -> S
             [] op.o = "inj" -> Inject(sc, S, op.a)
             [] op.o = "step" -> Frame(sc, S, op.dt, obRun, IF good THEN SubSeq(ob, 1, ne) ELSE S.m.v)
             [] OTHER -> S
      C == IF ~good THEN B ELSE
           [B EXCEPT !.m.v = [e \in 1..ne |-> Mo!Adopt(ob[e], @[e])], !.l.s = [e \in 1..ne |-> La!Adopt(ob[ne + e], @[e], La!Tol + B.l.slack[e])], !.l.t = [e \in 1..ne |-> La!Adopt(ob[2 * ne + e], @[e], La!Tol)],
                     !.l.lane = [e \in 1..ne |-> IF La!Border(sc, B.l.t[e]) /\ ob[4 * ne + e] \in La!Lanes(sc) /\ La!Dist(sc, ob[4 * ne + e], B.l.t[e]) <= 48 THEN ob[4 * ne + e] ELSE @[e]]]
      hd(e) == IF good /\ (C.l.h[e] = La!NotSeen \/ Near(ob[3 * ne + e], C.l.h[e], IF C.l.h[e] = 0 /\ ~\E a \in 1..na : C.l.run[a] /\ sc.act[a].e = e THEN 1 ELSE IF Abs(C.m.v[e]) < 1024 THEN 4096 ELSE 40)) THEN ob[3 * ne + e] ELSE C.l.h[e]
  IN IF C.l.lost THEN [s |-> C, r |-> ob] ELSE [s |-> C, r |-> C.m.v \o C.l.s \o C.l.t \o [e \in 1..ne |-> hd(e)] \o C.l.lane \o [a \in 1..na |-> Bit(C.m.run[a] \/ C.l.run[a])]
                     \o << Ongoing(sc, C, "any"), Ongoing(sc, C, "speed"), Ongoing(sc, C, "change"), Ongoing(sc, C, "offset") >>]
=============================================================================
