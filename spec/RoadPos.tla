------------------------------ MODULE RoadPos ------------------------------
(* Position handles on a road network: operations and what they show.        *)
EXTENDS RoadNet

Tol == 3
Start(sc) == << >>

Driving(sec) == SelectSeq(sec.lanes, LAMBDA l : l.ty \in AnyDriving)
SpeedLimit(sc, P) ==
  LET r == sc.roads[P.r]  sec == r.secs[Sec(r, P.s)]
      side == Len(SelectSeq(sec.lanes, LAMBDA l : l.ty \in AnyDriving /\ (l.id > 0) = (P.lane > 0)))
  IN IF r.spd # << >> THEN r.spd[Rec(r.spd, P.s, 1)].v * 1024 ELSE IF side > 1 THEN 34133 ELSE 17067

\* a position as the application sees it
Seen(sc, P) == LET w == XY(sc.roads[P.r], P.s, T(sc, P)) IN <<P.r, P.s, P.lane, P.off, w[1], w[2], Z(sc, P), HeadQ(sc, P)>>
Info(sc, P) == LET r == sc.roads[P.r]  sec == r.secs[Sec(r, P.s)]  w == XY(r, P.s, T(sc, P))
               IN <<P.r, P.s, P.lane, P.off, w[1], w[2], Z(sc, P), Width(sec, P.lane, P.s), IF r.spd = << >> THEN 0 ELSE r.spd[Rec(r.spd, P.s, 1)].v * 1024, Lane(sec, P.lane).ty>>

\* an observation that agrees within the tolerance is taken as it is
Close(exp, ob) == IF Len(exp) # Len(ob) THEN exp ELSE [n \in 1..Len(exp) |-> IF Near(exp[n], ob[n], Tol) THEN ob[n] ELSE exp[n]]
\* ... where the code and the specification must agree exactly (roads, lanes, headings, codes): positions listed in ex
CloseX(exp, ob, ex) == IF Len(exp) # Len(ob) THEN exp ELSE [n \in 1..Len(exp) |-> IF n \notin ex /\ Near(exp[n], ob[n], Tol) THEN ob[n] ELSE exp[n]]

PosX == {1, 2, 3, 5, 10}         \* return code, number of handles, road, lane, heading
InfoX == {1, 2, 4, 11}           \* return code, road, lane, lane type

\* result of an operation on handle h that leaves position P there
Result(sc, S, h, P, rc, ob) ==
  LET S2 == [S EXCEPT ![h] = P]
      e  == <<rc, Len(S)>> \o (IF P.r = 0 THEN SubSeq(ob, 3, Len(ob)) ELSE Seen(sc, P))
      g  == CloseX(e, ob, PosX)
  IN [s |-> S2, r |-> g]

Sel(n) == n   \* junction selector: quarter turns, -1 for a free choice

Step(sc, S, op, ob) ==
  LET h == op.h
      bad == h > Len(S) \/ h < 1
      hint == IF Len(ob) >= 3 THEN ob[3] ELSE 0
  IN
  CASE op.o = "create" -> [s |-> Append(S, Undef), r |-> <<Len(S), Len(S) + 1>>]
    [] op.o = "copy" -> IF bad THEN [s |-> S, r |-> <<-1, Len(S)>>]
                        ELSE [s |-> Append(S, S[h]), r |-> IF S[h].r = 0 THEN (IF Len(ob) = 10 /\ ob[1] = Len(S) /\ ob[2] = Len(S) + 1 THEN ob ELSE <<Len(S), Len(S) + 1>>)
                                                            ELSE CloseX(<<Len(S), Len(S) + 1>> \o Seen(sc, S[h]), ob, PosX)]
    [] op.o = "delete" -> IF h = 0 THEN [s |-> << >>, r |-> <<0, 0>>]      \* all
                          ELSE IF bad THEN [s |-> S, r |-> <<-1, Len(S)>>]
                          ELSE [s |-> [n \in 1..(Len(S) - 1) |-> IF n < h THEN S[n] ELSE S[n + 1]], r |-> <<0, Len(S) - 1>>]
    [] op.o = "ids" -> [s |-> S, r |-> [n \in 1..(2 * Len(sc.roads)) |-> IF n % 2 = 1 THEN n \div 2 ELSE 1] \o [n \in 1..Len(sc.juncs) |-> 1] \o [n \in 1..Len(sc.roads) |-> sc.roads[n].len]]
    [] op.o = "lanes" -> LET r == sc.roads[op.i]  sec == r.secs[Sec(r, op.s)]  d == Driving(sec)
                         IN [s |-> S, r |-> CloseX(<<Len(d)>> \o [n \in 1..Len(d) |-> d[n].id] \o [n \in 1..Len(op.l) |-> IF op.l[n] \in LaneIds(sec) THEN Lane(sec, op.l[n]).ty ELSE -1]
                                                   \o [n \in 1..Len(op.l) |-> Width(sec, op.l[n], op.s)], ob, 1..(1 + Len(d) + Len(op.l)))]
    [] bad -> [s |-> S, r |-> <<-1, Len(S)>>]
    [] op.o = "diff" ->
         IF op.g > Len(S) THEN [s |-> S, r |-> <<-1, Len(S)>>]
         ELSE IF S[h].r = 0 \/ S[op.g].r = 0 THEN [s |-> S, r |-> ob]
         ELSE LET A == S[h]  B == S[op.g]  b == Between(sc, A, B)
              IN CASE b.k = "open" \/ A.lane = 0 \/ B.lane = 0 \/ A.rev # Against(sc, A.lane) -> [s |-> S, r |-> ob]
                   [] b.k = "none" -> [s |-> S, r |-> <<-2>>]
                   [] OTHER -> [s |-> S, r |-> CloseX(<<0, b.ds>> \o (IF b.lane = 0 THEN (IF Len(ob) = 4 THEN SubSeq(ob, 3, 4) ELSE << >>)
                                                                      ELSE <<T(sc, B) - (IF (b.lane > 0) = (A.lane > 0) THEN T(sc, A) ELSE -T(sc, A)), LaneDiff(b.lane, B.lane)>>), ob, {1, 4})]
    [] op.o = "setlane" ->
         LET r == sc.roads[op.i]  okk == op.s <= r.len /\ op.lane \in LaneIds(r.secs[Sec(r, Min(op.s, r.len))])
             P == [r |-> op.i, s |-> op.s, lane |-> op.lane, off |-> op.off, rev |-> IF op.align THEN Against(sc, op.lane) ELSE S[h].rev]
         IN IF okk /\ (op.align \/ S[h].r # 0) THEN Result(sc, S, h, P, 0, ob) ELSE Result(sc, S, h, Undef, IF okk THEN 0 ELSE -1, ob)
    [] op.o = "setroad" ->
         LET r == sc.roads[op.i]
             P == FromTrack(sc, op.i, op.s, op.t, IF op.align THEN Against(sc, op.t) ELSE S[h].rev)
         IN IF op.s <= r.len /\ (op.align \/ S[h].r # 0) THEN Result(sc, S, h, P, 0, ob) ELSE Result(sc, S, h, Undef, IF op.s <= r.len THEN 0 ELSE -1, ob)
    [] op.o = "setxy" -> Result(sc, S, h, FromTrack(sc, op.i, op.s, op.t, op.rev), 0, ob)
    [] op.o = "move" ->
         IF S[h].r = 0 THEN Result(sc, S, h, Undef, ob[1], ob)
         ELSE LET m == Move(sc, S[h], op.d, op.sel, hint)
              IN CASE m.st = "ok" -> Result(sc, S, h, m.p, 0, ob)
                   [] m.st = "end" -> Result(sc, S, h, m.p, -1, ob)
                   [] OTHER -> Result(sc, S, h, Undef, ob[1], ob)
    [] op.o = "turn" -> IF S[h].r = 0 THEN Result(sc, S, h, Undef, 0, ob) ELSE Result(sc, S, h, [S[h] EXCEPT !.rev = op.rev], 0, ob)
    [] op.o \in {"look", "probe"} ->
         IF S[h].r = 0 THEN [s |-> S, r |-> ob]
         ELSE LET P  == S[h]
                  d  == IF op.dir = 1 /\ P.rev # Against(sc, P.lane) THEN -op.d ELSE op.d     \* dir: in driving direction of the lane
                  m  == Move(sc, [P EXCEPT !.off = IF op.m = 0 THEN 0 ELSE @], d, 0, IF Len(ob) >= 2 THEN ob[2] ELSE 0)
                  me == Seen(sc, P) \o <<SpeedLimit(sc, P)>>
                  at == XY(sc.roads[P.r], P.s, T(sc, P))
                  to(Q) == LET w == XY(sc.roads[Q.r], Q.s, T(sc, Q)) IN IF op.o = "probe" THEN <<w[1] - at[1], w[2] - at[2], 1>> ELSE << >>
                  n  == IF op.o = "probe" THEN 23 ELSE 20
              IN CASE m.st \in {"ok", "end"} /\ (sc.strict = 1 \/ op.dir = 0 \/ P.rev = Against(sc, P.lane)) -> [s |-> S, r |-> CloseX(<<IF m.st = "ok" THEN 0 ELSE -1>> \o Info(sc, m.p) \o me \o to(m.p), ob, InfoX \cup {12, 14, 19, 23})]
                   [] OTHER -> [s |-> S, r |-> IF Len(ob) = n THEN CloseX(SubSeq(ob, 1, 11) \o me \o SubSeq(ob, 21, n), ob, {12, 14, 19}) ELSE me]
=============================================================================
