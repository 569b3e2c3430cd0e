------------------------------ MODULE RoadNet ------------------------------
(* A road network and positions on it.  Lengths in units of 2^-10 m.         *)
(* sc.roads[i] = [len, x, y, q, secs, off, elev, pred, succ, junc, spd]: a   *)
(*   straight road from (x, y) in compass direction q (quarter turns);       *)
(*   secs[k] = [s, len, lanes]; lanes[l] = [id, ty, w, succ, pred], from     *)
(*   left to right without the centre; w, off, elev: piecewise linear, [s, a,*)
(*   b] with slope b/16; pred, succ = [k: "none"|"road"|"junction", i, c].   *)
(* sc.juncs[j].conns = << [inc, con, contact, links: << [f, t] >>] >>        *)
(* A position is [r, s, lane, off, rev]: road, lane and offset from the lane *)
(* centre; rev = 1 if it is headed against the road.  r = 0: undefined.      *)
EXTENDS Arith, Sequences, FiniteSets

AnyDriving == {2, 131072, 262144, 524288, 1048576, 4194304, 512}
Undef == [r |-> 0, s |-> 0, lane |-> 0, off |-> 0, rev |-> 0]

\* ---- piecewise linear profiles ------------------------------------------
RECURSIVE Rec(_, _, _)
Rec(p, s, i) == IF i < Len(p) /\ p[i + 1].s <= s THEN Rec(p, s, i + 1) ELSE i
Floor16(n) == n \div 16
At(p, s) == IF p = << >> \/ p[1].s > s THEN 0 ELSE LET k == Rec(p, s, 1) IN p[k].a + Floor16(p[k].b * (s - p[k].s))

\* ---- cross section -------------------------------------------------------
RECURSIVE SecAt(_, _, _)
SecAt(r, s, k) == IF k < Len(r.secs) /\ r.secs[k + 1].s <= s THEN SecAt(r, s, k + 1) ELSE k
Sec(r, s) == SecAt(r, s, 1)
LaneIds(sec) == {sec.lanes[l].id : l \in 1..Len(sec.lanes)}
Lane(sec, id) == sec.lanes[CHOOSE l \in 1..Len(sec.lanes) : sec.lanes[l].id = id]
Clamp(s, a, b) == IF s < a THEN a ELSE IF s > b THEN b ELSE s
Width(sec, id, s) == IF id = 0 \/ id \notin LaneIds(sec) THEN 0 ELSE At(Lane(sec, id).w, Clamp(s, sec.s, sec.s + sec.len) - sec.s)

RECURSIVE Outer(_, _, _)
Outer(sec, id, s) == IF id = 0 THEN 0 ELSE Width(sec, id, s) + Outer(sec, IF id < 0 THEN id + 1 ELSE id - 1, s)
\* twice the lateral position of the centre of a lane, lane offset of the road not included
Centre2(sec, id, s) == (IF id < 0 THEN -1 ELSE 1) * (2 * Outer(sec, id, s) - Width(sec, id, s))

\* lateral position (t) of a lane position
T(sc, P) == LET r == sc.roads[P.r]  sec == r.secs[Sec(r, P.s)] IN P.off + At(r.off, P.s) + Centre2(sec, P.lane, P.s) \div 2
\* heading in quarter turns, and world coordinates
\* 1: driving direction of the lane is against the road (sc.lht: left hand traffic)
Against(sc, lane) == IF (lane < 0) = (sc.lht = 0) THEN 0 ELSE 1
HeadQ(sc, P) == (sc.roads[P.r].q + 2 * P.rev) % 4
XY(r, s, t) == CASE r.q = 0 -> <<r.x + s, r.y + t>> [] r.q = 1 -> <<r.x - t, r.y + s>> [] r.q = 2 -> <<r.x - s, r.y - t>> [] r.q = 3 -> <<r.x + t, r.y - s>>
Z(sc, P) == At(sc.roads[P.r].elev, P.s)

\* the lane of the given types (non-zero width) that contains lateral position t (relative to the lane offset), or else is nearest to it
Closest(sec, s, t, side, types) ==
  LET c    == {l \in LaneIds(sec) : Lane(sec, l).ty \in types /\ Width(sec, l, s) > 0 /\ (side = 0 \/ (l > 0) = (side > 0))}
      d(l) == Abs(2 * t - Centre2(sec, l, s))
      inn  == {l \in c : d(l) < Width(sec, l, s)}
  IN IF c = {} THEN 0 ELSE IF inn # {} THEN CHOOSE l \in inn : \A m \in inn : l >= m
     ELSE CHOOSE l \in c : \A m \in c : d(l) < d(m) \/ (d(l) = d(m) /\ l >= m)

\* (road, s, t) as a lane position
FromTrack(sc, i, s, t, rev) ==
  LET r == sc.roads[i]  sec == r.secs[Sec(r, s)]  u == t - At(r.off, s)
      l == Closest(sec, s, u, 0, AnyDriving)
  IN [r |-> i, s |-> s, lane |-> l, off |-> u - Centre2(sec, l, s) \div 2, rev |-> rev]

\* ---- moving --------------------------------------------------------------
\* the lane in which lane id of section k continues in section k2, the next one towards it; ends: << lane, FALSE >>
RECURSIVE Follow(_, _, _, _, _, _)
Follow(r, k, k2, id, s, okk) ==
  IF k = k2 \/ ~okk THEN <<id, okk>>
  ELSE LET up  == k2 > k
           lk  == IF up THEN Lane(r.secs[k], id).succ ELSE Lane(r.secs[k], id).pred
           n   == IF up THEN k + 1 ELSE k - 1
           nid == IF lk # 0 THEN lk ELSE id
       IN IF lk # 0 THEN Follow(r, n, k2, lk, s, TRUE) ELSE <<id, FALSE>>

\* along the road to s (within it): follow the lane; a lane that ends hands over to the nearest driving lane
\* "ends" is only used for networks in which at most one section change separates the two
Along(sc, P, s) ==
  LET r  == sc.roads[P.r]
      k  == Sec(r, P.s)
      k2 == Sec(r, s)
      f  == Follow(r, k, k2, P.lane, s, TRUE)
      \* positions keep to driving lanes: a lane that becomes, or is, of another type counts as ended at the next section
      drv == k = k2 \/ ~f[2] \/ Lane(r.secs[k2], f[1]).ty \in AnyDriving
  IN IF f[2] /\ drv THEN [p |-> [P EXCEPT !.s = s, !.lane = f[1]], ok |-> TRUE] ELSE [p |-> [P EXCEPT !.s = s], ok |-> FALSE]

\* A connecting road can also be entered from the other side: the counter connection, unless given explicitly
OtherEnd(c) == IF c.contact = "start" THEN "end" ELSE "start"
Counter(sc, c) ==
  LET r    == sc.roads[c.con]
      side == OtherEnd(c)
      lk   == IF side = "end" THEN r.succ ELSE r.pred
      sec  == r.secs[IF side = "end" THEN Len(r.secs) ELSE 1]
      to(l) == IF side = "end" THEN l.succ ELSE l.pred
      ls   == SelectSeq(sec.lanes, LAMBDA l : to(l) # 0)
  IN [inc |-> lk.i, con |-> c.con, contact |-> side, links |-> [n \in 1..Len(ls) |-> [f |-> to(ls[n]), t |-> ls[n].id]]]
AllConns(sc, j) ==
  LET given == {sc.juncs[j].conns[n] : n \in 1..Len(sc.juncs[j].conns)}
      has(c) == \E d \in given : d.inc = c.inc /\ d.con = c.con
  IN given \cup {c \in {Counter(sc, d) : d \in given} : ~has(c)}
Conns(sc, j, i, lane) == {<<c, m>> \in AllConns(sc, j) \X (1..8) : c.inc = i /\ m <= Len(c.links) /\ c.links[m].f = lane}

\* direction (quarter turns, relative to the driving direction of the lane of P) in which connection c leaves its connecting road
TurnOf(sc, P, c) ==
  LET q == (sc.roads[c.con].q + (IF c.contact = "start" THEN 0 ELSE 2)) % 4
  IN (q - HeadQ(sc, [P EXCEPT !.rev = Against(sc, P.lane)]) + 4) % 4
AngleDiff(a, b) == LET d == (a - b + 8) % 4 IN Min(d, 4 - d)
Wanted(sc, P, j, sel) ==
  LET c == Conns(sc, j, P.r, P.lane) IN
  IF sel < 0 THEN c ELSE {x \in c : \A y \in c : AngleDiff(TurnOf(sc, P, x[1]), sel) <= AngleDiff(TurnOf(sc, P, y[1]), sel)}

\* the ways of continuing from the end ("end") or start ("start") of the road: set of << road, lane, contact >>
Continue(sc, P, side, sel) ==
  LET r  == sc.roads[P.r]
      lk == IF side = "end" THEN r.succ ELSE r.pred
      L  == Lane(r.secs[IF side = "end" THEN Len(r.secs) ELSE 1], P.lane)
  IN CASE lk.k = "road" -> {<<lk.i, IF side = "end" THEN L.succ ELSE L.pred, lk.c>>}
       [] lk.k = "junction" -> {<<x[1].con, x[1].links[x[2]].t, x[1].contact>> : x \in Wanted(sc, P, lk.i, sel)}
       [] OTHER -> {}

\* Moving ds along the road direction (negative: against it).  hint: road numbers seen, to resolve a free choice.
\* Result: [p, st] with st "ok", "end" (no way on: stays at the end of the road), "lane" (a lane ended on the way: where exactly is left open)
RECURSIVE MoveDS(_, _, _, _, _, _)
MoveDS(sc, P, ds, sel, hint, fuel) ==
  LET r == sc.roads[P.r]  to == P.s + ds IN
  IF fuel = 0 THEN [p |-> P, st |-> "far"]
  ELSE IF 0 <= to /\ to <= r.len
  THEN LET a == Along(sc, P, to) IN [p |-> a.p, st |-> IF a.ok THEN "ok" ELSE "lane"]
  ELSE LET side == IF to > r.len THEN "end" ELSE "start"
           a    == Along(sc, P, IF side = "end" THEN r.len ELSE 0)
           rest == IF side = "end" THEN to - r.len ELSE -to
           ways == Continue(sc, a.p, side, sel)
       IN IF ~a.ok THEN [p |-> a.p, st |-> "lane"]
          ELSE IF ways = {} THEN [p |-> a.p, st |-> "end"]
          ELSE LET ds2(w) == IF w[3] = "end" THEN -rest ELSE rest
                   flip(w) == (side = "end") = (w[3] = "end")
                   go(w) == MoveDS(sc, [r |-> w[1], s |-> IF w[3] = "end" THEN sc.roads[w[1]].len ELSE 0, lane |-> w[2],
                                        off |-> IF flip(w) THEN -a.p.off ELSE a.p.off, rev |-> IF flip(w) THEN 1 - a.p.rev ELSE a.p.rev], ds2(w), sel, hint, fuel - 1)
                   live == {w \in ways : w[2] # 0}
               IN IF live = {} THEN [p |-> a.p, st |-> "lane"]
                  ELSE LET good == {w \in live : go(w).p.r = hint}
                           open == {w \in live : go(w).st \in {"lane", "far"}}
                       IN go(CHOOSE w \in (IF good # {} THEN good ELSE IF open # {} THEN open ELSE live) : TRUE)

\* in the direction the position is headed
Move(sc, P, d, sel, hint) == MoveDS(sc, P, IF P.rev = 1 THEN -d ELSE d, sel, hint, 8)

\* ---- distance ------------------------------------------------------------
\* The ways from one end ("start" or "end") of road i, reached in lane (0: the lane ended before) after a distance of d, to position B:
\* set of [d, lane, at, end, first]: length, lane (at the entry) of the road of B, where the road is entered, whether a lane ended on the way.
\* Roads are entered only in a linked lane, except that of B itself.
Through(r, lane, from) ==      \* lane at the other end of a road
  LET f == IF from = "start" THEN Follow(r, 1, Len(r.secs), lane, 0, TRUE) ELSE Follow(r, Len(r.secs), 1, lane, 0, TRUE) IN f
RECURSIVE Ways(_, _, _, _, _, _, _, _)
Ways(sc, i, side, lane, d, B, ended, fuel) ==
  LET r    == sc.roads[i]
      lk   == IF side = "end" THEN r.succ ELSE r.pred
      sec  == r.secs[IF side = "end" THEN Len(r.secs) ELSE 1]
      ll   == IF lane \in LaneIds(sec) THEN (IF side = "end" THEN Lane(sec, lane).succ ELSE Lane(sec, lane).pred) ELSE 0
      to(c) == LET m == {k \in 1..Len(c.links) : c.links[k].f = lane} IN IF m = {} THEN 0 ELSE c.links[CHOOSE k \in m : \A h \in m : k <= h].t
      nxt  == CASE lk.k = "road" -> {<<lk.i, ll, lk.c>>}
                [] lk.k = "junction" -> {<<c.con, to(c), c.contact>> : c \in {x \in AllConns(sc, lk.i) : x.inc = i}}
                [] OTHER -> {}
  IN IF fuel = 0 THEN {}
     ELSE UNION {IF w[1] = B.r THEN {[d |-> d + (IF w[3] = "start" THEN B.s ELSE sc.roads[w[1]].len - B.s), lane |-> w[2], at |-> w[3], ended |-> ended]}
                 ELSE IF w[2] = 0 /\ ~ended THEN {}
                 ELSE LET t == IF w[2] = 0 THEN <<0, FALSE>> ELSE Through(sc.roads[w[1]], w[2], w[3])
                      IN Ways(sc, w[1], IF w[3] = "start" THEN "end" ELSE "start", t[1], d + sc.roads[w[1]].len, B, ended \/ ~t[2], fuel - 1) : w \in nxt}

\* From A to B: [k |-> "same" | "path" | "open" | "none", ds, lane]: distance (positive ahead of A), and the lane that the lane of A becomes at B (0: none).
\* open: on the way a lane ended, so that whether and how B is reached is left open
Between(sc, A, B) ==
  LET r == sc.roads[A.r]
      to(side) == LET f == Follow(r, Sec(r, A.s), IF side = "end" THEN Len(r.secs) ELSE 1, A.lane, 0, TRUE)
                  IN Ways(sc, A.r, side, f[1], IF side = "end" THEN r.len - A.s ELSE A.s, B, ~f[2], 12)
      up == to("end")
      dn == to("start")
      all == up \cup dn
      best == {w \in all : \A v \in all : w.d <= v.d}
      rb == sc.roads[B.r]
      lane(w) == IF w.lane = 0 THEN <<0, FALSE>> ELSE Follow(rb, IF w.at = "start" THEN 1 ELSE Len(rb.secs), Sec(rb, B.s), w.lane, 0, TRUE)
  IN IF A.r = B.r THEN LET f == Follow(r, Sec(r, A.s), Sec(r, B.s), A.lane, 0, TRUE)
                       IN [k |-> "same", ds |-> (B.s - A.s) * (IF A.rev = 1 THEN -1 ELSE 1), lane |-> IF f[2] THEN f[1] ELSE 0]
     ELSE IF \E w \in all : w.ended THEN [k |-> "open", ds |-> 0, lane |-> 0]
     ELSE IF all = {} THEN [k |-> "none", ds |-> 0, lane |-> 0]
     ELSE LET w == CHOOSE x \in best : \A y \in best : x.lane # 0 \/ y.lane = 0
              f == lane(w)
          IN [k |-> "path", ds |-> w.d * (IF (w \in up) = (A.rev = 0) THEN 1 ELSE -1), lane |-> IF f[2] THEN f[1] ELSE 0]
\* lanes between, not counting the centre
LaneDiff(a, b) == IF (a > 0) = (b > 0) THEN b - a ELSE IF b > a THEN b - a - 1 ELSE b - a + 1
=============================================================================
