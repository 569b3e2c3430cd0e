------------------------------ MODULE RouteMC -------------------------------
(* Two ways of different length between road 1 and road 7, and a road 9 that *)
(* continues road 7; entities drive both ways.                               *)
EXTENDS Route, TLC

CONSTANT Depth

L == <<[id |-> 1, ty |-> 2, w |-> <<[s |-> 0, a |-> 3, b |-> 0]>>, succ |-> 1, pred |-> 1], [id |-> -1, ty |-> 2, w |-> <<[s |-> 0, a |-> 3, b |-> 0]>>, succ |-> -1, pred |-> -1]>>
None == [k |-> "none", i |-> 0, c |-> "start"]
J(i) == [k |-> "junction", i |-> i, c |-> "start"]
R(i, c) == [k |-> "road", i |-> i, c |-> c]
Road(len, j, p, s) == [len |-> len, x |-> 0, y |-> 0, q |-> 0, secs |-> <<[s |-> 0, len |-> len, lanes |-> L]>>, off |-> << >>, elev |-> << >>, pred |-> p, succ |-> s, junc |-> j, spd |-> 0]
Con(inc, con) == [inc |-> inc, con |-> con, contact |-> "start", links |-> <<[f |-> -1, t |-> -1]>>]
W(r, s, lane) == [r |-> r, s |-> s, lane |-> lane]
E(r, s, lane) == [r |-> r, s |-> s, lane |-> lane, off |-> 0, rev |-> IF lane > 0 THEN 1 ELSE 0, v |-> 1]
Sc == [lht |-> 0,
       roads |-> <<Road(8, 0, None, J(1)), Road(6, 0, R(4, "end"), J(2)), Road(10, 0, R(5, "end"), J(2)),
                   Road(2, 1, R(1, "end"), R(2, "start")), Road(2, 1, R(1, "end"), R(3, "start")),
                   Road(2, 2, R(2, "end"), R(7, "start")), Road(8, 0, J(2), R(9, "start")), Road(3, 2, R(3, "end"), R(7, "start")), Road(30, 0, R(7, "end"), None)>>,
       juncs |-> <<[conns |-> <<Con(1, 4), Con(1, 5)>>], [conns |-> <<Con(2, 6), Con(3, 8)>>]>>,
       ent |-> <<E(1, 1, -1), E(7, 5, 1)>>,
       plan |-> <<[k |-> "acquire", e |-> 1, wp |-> <<W(7, 3, -1)>>], [k |-> "route", e |-> 1, wp |-> <<W(1, 2, -1), W(3, 4, -1), W(7, 3, -1)>>],
                  [k |-> "acquire", e |-> 1, wp |-> <<W(3, 9, -1)>>], [k |-> "route", e |-> 1, wp |-> <<W(7, 1, -1), W(1, 5, -1)>>],
                  [k |-> "acquire", e |-> 2, wp |-> <<W(1, 5, 1)>>], [k |-> "route", e |-> 2, wp |-> <<W(7, 4, 1), W(3, 7, 1), W(3, 2, 1), W(1, 3, 1)>>]>>]
Plans == 1..Len(Sc.plan)
Roads == 1..Len(Sc.roads)

VARIABLES S, pre, op, h, d
vars == <<S, pre, op, h, d>>
Goes == {<< >>, <<1, 2>>, <<5, 1>>, <<6, 5>>} \cup {<<n>> : n \in Plans}
Ops == [o : {"step"}, go : Goes, d : {<<0, 5>>, <<3, 1>>, <<7, 5>>}]
Hints == {<<2, 2>>, <<5, 6>>}
Init == d = 0 /\ S = Start(Sc) /\ pre = Start(Sc) /\ op = [o |-> "init", go |-> << >>, d |-> <<0, 0>>] /\ h = <<0, 0>>
Next == d < Depth /\ d' = d + 1 /\ \E o \in Ops : \E k \in Hints : S' = Frame(Sc, S, o, k) /\ op' = o /\ h' = k /\ pre' = S
Spec == Init /\ [][Next]_vars

Last(s) == s[Len(s)]
\* the position from which the route leads, and the one to which it does
First(e, p) == IF p.k = "acquire" THEN pre.p[e] ELSE Headed(Sc, p.wp[1])
Mine(e) == Given(Sc, op, e)
Sound(P, R0, p) ==
  LET B == Last(p.wp)  at(x, hh) == Ahead(Sc, P, x, Turns(R0), hh).p IN
  R0.ok /\ Plain(R0) /\ (Len(R0.roads) > 1) => \A hh \in Roads : at(R0.d, hh).r = B.r /\ at(R0.d, hh).s = B.s
\* driving the length of a route from where it begins leads to its last waypoint, whatever is chosen elsewhere
Arrives == \A e \in Ents(Sc) : Mine(e) # << >> => LET p == Sc.plan[Last(Mine(e))] IN Sound(First(e, p), S.route[e], p)
\* no sequence of turns leads there earlier
NoShorter == \A e \in Ents(Sc) : Mine(e) # << >> =>
  LET p == Sc.plan[Last(Mine(e))]  B == Last(p.wp)  R0 == S.route[e] IN
  (p.k = "acquire" /\ R0.ok /\ Len(R0.roads) > 1) => \A x \in 0..(R0.d - 1) : LET q == Ahead(Sc, pre.p[e], x, {}, B.r).p IN ~(q.r = B.r /\ q.s = B.s)
\* what one entity is told does not concern the others
OnlyTheirs == op.o = "step" => \A e \in Ents(Sc) :
  LET N == Frame(Sc, pre, [op EXCEPT !.go = Mine(e)], h) IN N.p[e] = S.p[e] /\ N.route[e] = S.route[e]
\* the roads told are those of a way: each leads to the next, and the route is as long as the way
Leads(a, b) == \E c \in Roads : \E side \in {"start", "end"} : \E l \in {1, -1} :
  LET P == [r |-> a, s |-> IF side = "end" THEN Sc.roads[a].len ELSE 0, lane |-> l, off |-> 0, rev |-> 0] IN \E w \in Continue(Sc, P, side, -1) : w[1] = b
Told == \A e \in Ents(Sc) : LET R0 == S.route[e] IN R0.ok => \A k \in 1..(Len(R0.roads) - 1) : Leads(R0.roads[k], R0.roads[k + 1])
\* without a (possible) route, an entity goes on as any position does that is moved along its road
Unrouted == op.o = "step" => \A e \in Ents(Sc) : ~S.gone[e] /\ ~S.route[e].ok => \E x \in Roads : S.p[e] = Move(Sc, pre.p[e], op.d[e], -1, x).p
\* passing a junction, an entity with a route takes its turn
TakesTurns == op.o = "step" => \A e \in Ents(Sc) : ~S.gone[e] /\ S.route[e].ok => \A t \in Turns(S.route[e]) :
  (pre.p[e].r = t[1] /\ Sc.roads[t[1]].junc = 0 /\ S.p[e].r # t[1] /\ Sc.roads[S.p[e].r].junc # 0) => <<t[1], S.p[e].r>> \in Allowed(S.route[e])
=============================================================================
