------------------------------ MODULE RoadPosMC ------------------------------
(* The road model on two small networks, for every position and movement.     *)
EXTENDS RoadPos, TLC

CONSTANT Reach
W(n) == << [s |-> 0, a |-> n, b |-> 0] >>
Ln(id, w, p, u) == [id |-> id, ty |-> 2, w |-> W(w), pred |-> p, succ |-> u]
Flat == W(0)
No == [k |-> "none", i |-> 0, c |-> ""]
Rd(i, c) == [k |-> "road", i |-> i, c |-> c]
Jn(j) == [k |-> "junction", i |-> j, c |-> ""]
Road(len, x, y, q, secs, off, pred, succ) == [len |-> len, x |-> x, y |-> y, q |-> q, secs |-> secs, off |-> off, elev |-> Flat, pred |-> pred, succ |-> succ, junc |-> 0, spd |-> << >>]
Sn(s, len, lanes) == [s |-> s, len |-> len, lanes |-> lanes]

\* 1: two roads end to start, lanes renumbered between sections; a third one turned around
Net1 == [lht |-> 0, juncs |-> << >>,
  roads |-> << Road(12, 0, 0, 0, << Sn(0, 5, << Ln(1, 8, 0, 1), Ln(-1, 8, 0, -1), Ln(-2, 6, 0, -2) >>),
                                    Sn(5, 7, << Ln(2, 4, 0, 0), Ln(1, 8, 1, 1), Ln(-1, 8, -1, -2), Ln(-2, 6, -2, -3) >>) >>, W(2), No, Rd(2, "start")),
               Road(9, 12, 0, 0, << Sn(0, 9, << Ln(1, 8, 1, -1), Ln(-1, 4, 0, 1), Ln(-2, 8, -1, 2), Ln(-3, 8, -2, 3) >>) >>, Flat, Rd(1, "end"), Rd(3, "end")),
               Road(8, 29, 0, 2, << Sn(0, 8, << Ln(3, 8, 0, -3), Ln(2, 8, 0, -2), Ln(1, 4, 0, -1), Ln(-1, 8, 0, 1) >>) >>, Flat, No, Rd(2, "end")) >>]
\* 2: a junction with a way straight on and one to the left
Net2 == [lht |-> 1, juncs |-> << [conns |-> << [inc |-> 1, con |-> 2, contact |-> "start", links |-> << [f |-> -1, t |-> -1] >>],
                                    [inc |-> 1, con |-> 3, contact |-> "start", links |-> << [f |-> -1, t |-> -1] >>],
                                    [inc |-> 4, con |-> 6, contact |-> "start", links |-> << [f |-> 1, t |-> -1] >>] >>] >>,
  roads |-> << Road(10, 0, 0, 0, << Sn(0, 10, << Ln(1, 8, 0, 0), Ln(-1, 8, 0, 0) >>) >>, Flat, No, Jn(1)),
               Road(4, 10, 0, 0, << Sn(0, 4, << Ln(-1, 8, -1, -1) >>) >>, Flat, Rd(1, "end"), Rd(4, "start")),
               Road(5, 10, 0, 1, << Sn(0, 5, << Ln(-1, 8, -1, -1) >>) >>, Flat, Rd(1, "end"), Rd(5, "start")),
               Road(9, 14, 0, 0, << Sn(0, 9, << Ln(1, 8, 0, 0), Ln(-1, 8, 0, 0) >>) >>, Flat, Jn(1), No),
               Road(9, 10, 5, 1, << Sn(0, 9, << Ln(1, 8, 0, 0), Ln(-1, 8, 0, 0) >>) >>, Flat, Jn(1), No),
               Road(4, 14, 0, 2, << Sn(0, 4, << Ln(-1, 8, 1, 1) >>) >>, Flat, Rd(4, "start"), Rd(1, "end")) >>]
Nets == << Net1, Net2 >>

VARIABLES n, P
vars == <<n, P>>
All(sc) == {[r |-> r, s |-> s, lane |-> l, off |-> o, rev |-> v] : r \in 1..Len(sc.roads), s \in 0..12, l \in -3..3, o \in {-1, 0, 1}, v \in {0, 1}}
Valid(sc, Q) == Q.r \in 1..Len(sc.roads) /\ Q.s \in 0..sc.roads[Q.r].len /\ Q.lane \in LaneIds(sc.roads[Q.r].secs[Sec(sc.roads[Q.r], Q.s)])
\* first the cross section, then the place in it (so that TLC's workers share the positions)
Init == n \in 1..Len(Nets) /\ P \in {Q \in All(Nets[n]) : Q.lane = 1 /\ Q.off = 0 /\ Q.rev = 0 /\ Q.s <= Nets[n].roads[Q.r].len}
Next == P.lane = 1 /\ n > 0 /\ n' = -n /\ P' \in {Q \in All(Nets[n]) : Q.r = P.r /\ Q.s = P.s /\ Q.lane # 0 /\ Valid(Nets[n], Q)}
Spec == Init /\ [][Next]_vars

ok == n < 0
sc == Nets[-n]
Hints == 1..Len(sc.roads)
Ends(d) == {Move(sc, P, d, -1, h) : h \in Hints}
\* a movement ends on the network, and a completed one covers its distance exactly on a chain of roads (here: along x)
Lands == ok => \A d \in -Reach..Reach : \A m \in Ends(d) : m.st \in {"ok", "end"} => Valid(sc, m.p)
Exact == n = -1 => \A d \in -Reach..Reach : \A m \in Ends(d) :
           m.st = "ok" => XY(sc.roads[m.p.r], m.p.s, 0)[1] - XY(sc.roads[P.r], P.s, 0)[1] = (IF HeadQ(sc, P) = 0 THEN d ELSE -d) /\ HeadQ(sc, m.p) = HeadQ(sc, P)
\* many small steps are one large step
Additive == ok => \A a, b \in 0..Reach : \A m \in Ends(a) : m.st = "ok" =>
              \A k \in {Move(sc, m.p, b, -1, h) : h \in Hints} : k.st = "ok" => k \in Ends(a + b)
\* there and back again
Back == ok => \A d \in 1..Reach : \A m \in Ends(d) : m.st = "ok" => \E h \in Hints : LET b == Move(sc, m.p, -d, -1, h) IN (b.st = "ok" => b.p = P) \/ b.p.r # P.r
\* lane and road coordinates are two views of the same point
RoundTrip == ok => LET t == T(sc, P)  Q == FromTrack(sc, P.r, P.s, t, P.rev) IN T(sc, Q) = t /\ (Q.lane = P.lane /\ Q.off = P.off)
\* lanes of a section do not overlap
Apart == ok => LET sec == sc.roads[P.r].secs[Sec(sc.roads[P.r], P.s)] IN
           \A a, b \in LaneIds(sec) : a < b => 2 * (Centre2(sec, b, P.s) - Centre2(sec, a, P.s)) >= Width(sec, a, P.s) + Width(sec, b, P.s)
\* the preferred way at a junction is one of the ways, and the one asked for if there is one
Turning == ok => \A sel \in 0..3 : \A h \in Hints : LET m == Move(sc, P, Reach, sel, h) IN m \in Ends(Reach) \/ \A e \in Ends(Reach) : e.st # m.st \/ e.p.r # m.p.r \/ e = m
\* the distance to where a movement in driving direction ended is at most its length, on a chain exactly that, and the lane reached is the lane it leads to;
\* seen from there it is the same distance
Measured == ok /\ P.rev = Against(sc, P.lane) => \A d \in 1..Reach : \A m \in Ends(d) : m.st = "ok" =>
              LET b == Between(sc, P, m.p)  c == Between(sc, m.p, P) IN
              b.k \in {"same", "path"} => /\ Abs(b.ds) <= d /\ (n = -1 => b.ds = d /\ (b.lane # 0 => LaneDiff(b.lane, m.p.lane) = 0))
                                         /\ (c.k \in {"same", "path"} => Abs(c.ds) = Abs(b.ds))
=============================================================================
