------------------------------- MODULE Route --------------------------------
(* Entities with routes on a road network (RoadNet.tla): at every junction   *)
(* an entity takes the turn of its route, which leads from waypoint to       *)
(* waypoint by the shortest way; otherwise it follows its lane.              *)
(* sc = [roads, juncs, lht, ent: << [r, s, lane, off, rev, v] >>, plan:      *)
(*   << [k: "route" | "acquire", e, wp: << [r, s, lane] >>] >>]              *)
(* op = [o, go: << plans given in this frame >>, d: << distance driven by    *)
(*   each entity >>]                                                         *)
(* Shown per entity: << road, lane, s, length of the route, roads of it >>.  *)
EXTENDS RoadNet

Ents(sc) == 1..Len(sc.ent)
OtherSide(c) == IF c = "start" THEN "end" ELSE "start"

\* the ways from one end of road i, reached in a lane after distance d, to position B: set of [d, roads]
RECURSIVE Paths(_, _, _, _, _, _, _, _)
Paths(sc, i, side, lane, d, B, roads, seen) ==
  LET r    == sc.roads[i]
      lk   == IF side = "end" THEN r.succ ELSE r.pred
      sec  == r.secs[IF side = "end" THEN Len(r.secs) ELSE 1]
      ll   == IF side = "end" THEN Lane(sec, lane).succ ELSE Lane(sec, lane).pred
      to(c) == LET m == {k \in 1..Len(c.links) : c.links[k].f = lane} IN IF m = {} THEN 0 ELSE c.links[CHOOSE k \in m : TRUE].t
      nxt  == CASE lk.k = "road" -> {<<lk.i, ll, lk.c>>}
                [] lk.k = "junction" -> {<<c.con, to(c), c.contact>> : c \in {x \in AllConns(sc, lk.i) : x.inc = i}}
                [] OTHER -> {}
  IN UNION {IF w[1] = B.r THEN {[d |-> d + (IF w[3] = "start" THEN B.s ELSE sc.roads[w[1]].len - B.s), roads |-> Append(roads, w[1]), c |-> w[3]]}
            ELSE IF w[2] = 0 \/ <<w[1], OtherSide(w[3])>> \in seen THEN {}
            ELSE Paths(sc, w[1], OtherSide(w[3]), Through(sc.roads[w[1]], w[2], w[3])[1], d + sc.roads[w[1]].len, B, Append(roads, w[1]), seen \cup {<<w[1], OtherSide(w[3])>>}) : w \in nxt}

\* the shortest way ahead from A (headed A.rev) to B; d = -1: none
Shortest(sc, A, B) ==
  LET r    == sc.roads[A.r]
      side == IF A.rev = 1 THEN "start" ELSE "end"
      lane == Follow(r, Sec(r, A.s), IF side = "end" THEN Len(r.secs) ELSE 1, A.lane, 0, TRUE)[1]
      all  == Paths(sc, A.r, side, lane, IF side = "end" THEN r.len - A.s ELSE A.s, B, <<A.r>>, {<<A.r, side>>})
  IN IF A.r = B.r THEN [d |-> Abs(B.s - A.s), roads |-> <<A.r>>, c |-> IF B.s < A.s THEN "end" ELSE "start"]
     ELSE IF all = {} THEN [d |-> -1, roads |-> << >>, c |-> ""]
     ELSE CHOOSE w \in all : \A v \in all : w.d <= v.d

NoRoute == [on |-> FALSE, ok |-> FALSE, d |-> 0, roads |-> << >>]
Headed(sc, w) == [r |-> w.r, s |-> w.s, lane |-> w.lane, off |-> 0, rev |-> Against(sc, w.lane)]
\* through all waypoints; one stretch missing: no route at all; going on from a waypoint reached against its lane: left open
RECURSIVE Chain(_, _, _)
Chain(sc, wps, R) ==
  IF Len(wps) = 1 \/ ~R.ok THEN R
  ELSE LET w == Shortest(sc, wps[1], wps[2])
       IN Chain(sc, Tail(wps), IF w.d < 0 \/ (Len(wps) > 2 /\ (wps[2].rev = 1) # (w.c = "end")) THEN [R EXCEPT !.ok = FALSE] ELSE [R EXCEPT !.d = @ + w.d, !.roads = @ \o Tail(w.roads)])
\* of several waypoints on one road the last one counts, and always the first one of the route
Counted(w, k) == k \in {1, Len(w)} \/ (w[k].r # w[k + 1].r /\ ~(k = 2 /\ w[1].r = w[2].r))
RECURSIVE Count(_, _)
Count(w, k) == IF k > Len(w) THEN << >> ELSE (IF Counted(w, k) THEN <<w[k]>> ELSE << >>) \o Count(w, k + 1)
RouteOf(sc, p, P) ==
  LET all == (IF p.k = "acquire" THEN <<P>> ELSE << >>) \o [k \in 1..Len(p.wp) |-> Headed(sc, p.wp[k])]
      wps == Count(all, 1)
  IN Chain(sc, wps, [on |-> TRUE, ok |-> TRUE, d |-> 0, roads |-> <<wps[1].r>>])

\* the turns of a route: << road, connecting road that it is left by >>
Turns(R) == IF R.ok THEN {<<R.roads[k], R.roads[k + 1]>> : k \in 1..(Len(R.roads) - 1)} ELSE {}
\* onto the first road of it, too: the entity may not have been there yet
Allowed(R) == Turns(R) \cup {<<t[1], R.roads[1]>> : t \in Turns(R)}

\* a route that uses a road twice leaves open which of its turns is meant
Plain(R) == \A j, k \in 1..Len(R.roads) : R.roads[j] = R.roads[k] => j = k

\* ---- motion ---------------------------------------------------------------
\* moving along the road by ds as MoveDS does, with the turns tn where the lane has them; st "open": a free choice was made
RECURSIVE Drive(_, _, _, _, _, _)
Drive(sc, P, ds, tn, hint, fuel) ==
  LET r == sc.roads[P.r]  to == P.s + ds IN
  IF fuel = 0 THEN [p |-> P, st |-> "far"]
  ELSE IF 0 <= to /\ to <= r.len THEN [p |-> Along(sc, P, to).p, st |-> "ok"]
  ELSE LET side == IF to > r.len THEN "end" ELSE "start"
           a    == Along(sc, P, IF side = "end" THEN r.len ELSE 0).p
           rest == IF side = "end" THEN to - r.len ELSE -to
           ways == {w \in Continue(sc, a, side, -1) : w[2] # 0}
           mine == {w \in ways : <<P.r, w[1]>> \in tn}
           use  == IF mine # {} THEN mine ELSE ways
           go(w) == LET e == w[3] = "end"  f == (side = "end") = e
                    IN Drive(sc, [r |-> w[1], s |-> IF e THEN sc.roads[w[1]].len ELSE 0, lane |-> w[2], off |-> IF f THEN -a.off ELSE a.off,
                                  rev |-> IF f THEN 1 - a.rev ELSE a.rev], IF e THEN -rest ELSE rest, tn, hint, fuel - 1)
           good == {w \in use : go(w).p.r = hint}
       IN IF ways = {} THEN [p |-> a, st |-> "end"] ELSE go(CHOOSE w \in (IF good # {} THEN good ELSE use) : TRUE)
Ahead(sc, P, d, tn, hint) == Drive(sc, P, IF P.rev = 1 THEN -d ELSE d, tn, hint, 12)

\* ---- frames ---------------------------------------------------------------
Place(E) == [r |-> E.r, s |-> E.s, lane |-> E.lane, off |-> E.off, rev |-> E.rev]
Start(sc) == [p |-> [e \in Ents(sc) |-> Place(sc.ent[e])], route |-> [e \in Ents(sc) |-> NoRoute], gone |-> [e \in Ents(sc) |-> FALSE]]
Given(sc, op, e) == SelectSeq(op.go, LAMBDA n : sc.plan[n].e = e)
Routed(sc, S, op) == [e \in Ents(sc) |-> LET g == Given(sc, op, e) IN IF g = << >> THEN S.route[e] ELSE RouteOf(sc, sc.plan[g[Len(g)]], S.p[e])]
\* hint[e]: road on which entity e is seen
Frame(sc, S, op, hint) ==
  LET R == Routed(sc, S, op)
      m == [e \in Ents(sc) |-> Ahead(sc, S.p[e], op.d[e], Allowed(R[e]), hint[e])]
  IN [p |-> [e \in Ents(sc) |-> m[e].p], route |-> R, gone |-> [e \in Ents(sc) |-> S.gone[e] \/ m[e].st # "ok" \/ (R[e].ok /\ ~Plain(R[e]))]]

\* ---- what is shown --------------------------------------------------------
Tol == 3
Show(P, R) == <<P.r, P.lane, P.s, R.d>> \o R.roads
Judge(e, S, o) ==
  LET P == S.p[e]  R == S.route[e]
      s == IF Len(o) > 2 /\ Near(P.s, o[3], Tol) THEN o[3] ELSE P.s
      d == IF Len(o) > 3 /\ Near(R.d, o[4], Tol) THEN o[4] ELSE R.d
  IN IF S.gone[e] THEN o           \* the end of the road: left open
     ELSE IF R.on /\ ~R.ok /\ Len(o) > 3 THEN <<P.r, P.lane, s>> \o SubSeq(o, 4, Len(o))
     ELSE Show([P EXCEPT !.s = s], [R EXCEPT !.d = d])
Step(sc, S, op, ob) ==
  LET hint == [e \in Ents(sc) |-> IF Len(ob) >= e /\ Len(ob[e]) > 0 THEN ob[e][1] ELSE 0]
      N == Frame(sc, S, op, hint)
  IN [s |-> N, r |-> [e \in Ents(sc) |-> Judge(e, N, IF Len(ob) >= e THEN ob[e] ELSE << >>)]]
=============================================================================
