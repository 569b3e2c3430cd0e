-------------------------------- MODULE Traj --------------------------------
(* Entities following trajectories (polylines) on a flat plane, under        *)
(* default control; a straight road lies along the x axis.                   *)
(* Lengths in 2^-12 m, speeds in 2^-12 m/s, trajectory time in 2^-12 s,     *)
(* frame time in 1/16 s, headings in 2^-16 turns.                            *)
(* sc.ent[e] = [x0, y0, h0, v0]; sc.act[a] =                                 *)
(*  [k |-> "speed", e, tv],                                                  *)
(*  [k |-> "traj", e, p, rel, hk, tm, scale (quarters), off, mode, ido]:     *)
(*    p[i] = [x, y, h, t] are the vertices (relative to entity rel if it is  *)
(*    not 0), hk = 1 if they carry headings, tm in "none", "rel", "abs" is   *)
(*    the time reference, mode in "pos", "fol".                              *)
(* Segments point along an axis or along a 3-4-5 triangle.                   *)
(* Action a starts in the frames in which the environment chooses g = a.     *)
EXTENDS Arith, Sequences

Tol == 12
HTol == 24
NotSeen == 999999

\* 2^-16 turns; atan(3/4) is 6712 of them
HeadOf(dx, dy) ==
  LET q == IF dy = 0 THEN 0 ELSE IF Abs(dx) > Abs(dy) THEN 6712 ELSE 9672 IN
  CASE dx = 0 -> IF dy > 0 THEN 16384 ELSE 49152
    [] dx > 0 -> IF dy >= 0 THEN q ELSE 65536 - q
    [] dx < 0 -> IF dy >= 0 THEN 32768 - q ELSE 32768 + q
\* direction cosines (in fifths) of those headings
Unit(h) == CHOOSE u \in {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<4, 3>>, <<3, 4>>, <<-4, 3>>, <<-3, 4>>, <<4, -3>>, <<3, -4>>, <<-4, -3>>, <<-3, -4>>} : HeadOf(u[1], u[2]) = h
Diff(a, b) == LET d == (a - b) % 65536 IN IF d > 32768 THEN d - 65536 ELSE d       \* turn from b to a
Backward(h, ref) == Abs(Diff(h, ref)) > 16390

-----------------------------------------------------------------------------
(* The trajectory as laid out when the action starts: vertices with their    *)
(* distance s, heading of the line ht, heading h, and speed v (follow mode)  *)

SegLen(p, q) == LET dx == Abs(q.x - p.x)  dy == Abs(q.y - p.y) IN IF dx = 0 THEN dy ELSE IF dy = 0 THEN dx ELSE ((dx + dy) \div 7) * 5
RECURSIVE Dists(_, _, _)
Dists(p, i, s) == IF i > Len(p) THEN << >> ELSE LET n == IF i = 1 THEN 0 ELSE s + SegLen(p[i - 1], p[i]) IN <<n>> \o Dists(p, i + 1, n)
\* heading of the line at vertex i: that of the segment that begins there; one without length takes over the one before
LineHead(p, i) ==
  LET n == Len(p)
      long(j) == p[j] # p[j + 1] /\ SegLen(p[j], p[j + 1]) > 0
      before == {j \in 1..Min(i, n - 1) : long(j)}
      after == {j \in 1..(n - 1) : long(j)}
      j == IF before # {} THEN CHOOSE m \in before : \A k \in before : k <= m ELSE CHOOSE m \in after : \A k \in after : m <= k
  IN HeadOf(p[j + 1].x - p[j].x, p[j + 1].y - p[j].y)

\* follow mode: speeds at the vertices with constant acceleration in between, arriving on time, or earlier if that needed a turn back
RECURSIVE Speeds(_, _, _, _)
Speeds(p, ds, i, v) ==
  IF i > Len(p) THEN << >>
  ELSE IF i = 1 THEN <<v>> \o Speeds(p, ds, 2, v)
  ELSE LET d == ds[i] - ds[i - 1]  T == p[i].t - p[i - 1].t
           w == IF d = 0 \/ T = 0 THEN 0 ELSE Max(0, MulDiv(2 * d, 4096, T) - v)
       IN <<w>> \o Speeds(p, ds, i + 1, w)

Lay(A, x, y, v) ==
  LET n == Len(A.p)
      p == [i \in 1..n |-> [x |-> A.p[i].x + x, y |-> A.p[i].y + y, t |-> A.p[i].t]]
      ds == Dists(p, 1, 0)
      vs == IF A.mode = "fol" /\ A.tm # "none" THEN Speeds(p, ds, 1, Abs(v)) ELSE [i \in 1..n |-> 0]
      ht == [i \in 1..n |-> LineHead(p, i)]
  IN [i \in 1..n |-> [x |-> p[i].x, y |-> p[i].y, t |-> p[i].t, s |-> ds[i], v |-> vs[i], ht |-> ht[i], h |-> IF A.hk = 1 THEN A.p[i].h ELSE ht[i]]]

Length(P) == P[Len(P)].s
EndTime(P) == P[Len(P)].t
\* segment at distance s (at a vertex: the one that ends there)
SegAt(P, s) == CHOOSE i \in 1..(Len(P) - 1) : (i = Len(P) - 1 \/ P[i + 1].s >= s) /\ (i = 1 \/ P[i].s < s)
Along(P, s) ==
  LET i == SegAt(P, s)  l == P[i + 1].s - P[i].s  d == Min(Max(0, s - P[i].s), l) IN
  IF l = 0 THEN <<P[i].x, P[i].y>> ELSE <<P[i].x + SMulDiv(P[i + 1].x - P[i].x, d, l), P[i].y + SMulDiv(P[i + 1].y - P[i].y, d, l)>>
LineAt(P, s) == IF s >= Length(P) THEN P[Len(P)].ht ELSE P[SegAt(P, s)].ht

\* headings: turning over the whole segment (follow) or only near the corners (position)
Turn(a, b, num, den) == IF Abs(Diff(b, a)) = 32768 THEN NotSeen ELSE (a + SMulDiv(Diff(b, a), num, den)) % 65536
HeadAt(P, mode, s) ==
  LET n == Len(P) IN
  IF s >= Length(P) THEN P[n].h
  ELSE LET i == SegAt(P, s)  l == P[i + 1].s - P[i].s  d == Min(Max(0, s - P[i].s), l)  r == Min(8192, l \div 2) IN
       IF l = 0 THEN NotSeen
       ELSE IF mode = "fol" THEN Turn(P[i].h, P[i + 1].h, d, l)
       ELSE IF d < r THEN IF i = 1 THEN P[1].h ELSE Turn(P[i - 1].h, P[i].h, r + d, 2 * r)
       ELSE IF d > l - r THEN IF i < n - 1 THEN Turn(P[i].h, P[i + 1].h, r - (l - d), 2 * r) ELSE Turn(P[i].h, P[n].h, r - (l - d), r)
       ELSE P[i].h

\* distance reached at trajectory time t
AtTime(P, mode, t) ==
  LET n == Len(P) IN
  IF t > EndTime(P) THEN Length(P)
  ELSE LET i == CHOOSE j \in 1..(n - 1) : (j = n - 1 \/ P[j + 1].t >= t) /\ (j = 1 \/ P[j].t < t)
           d == P[i + 1].s - P[i].s  T == P[i + 1].t - P[i].t  e == Max(0, t - P[i].t)
       IN IF T = 0 \/ d = 0 THEN P[i].s
          ELSE IF mode = "pos" THEN P[i].s + MulDiv(d, e, T)
          ELSE LET v == P[i].v  u == MulDiv(v, e, 4096)  k == d - MulDiv(v, T, 4096) IN
               IF MulDiv(2 * d, 4096, T) < v THEN P[i].s + (IF u >= 2 * d THEN d ELSE u - MulDiv(u, u, 4 * d))        \* stops early
               ELSE P[i].s + u + SMulDiv(SMulDiv(k, e, T), e, T)

-----------------------------------------------------------------------------
Start(sc) ==
  LET E == 1..Len(sc.ent)  A == 1..Len(sc.act) IN
  [x |-> [e \in E |-> sc.ent[e].x0], y |-> [e \in E |-> sc.ent[e].y0], h |-> [e \in E |-> sc.ent[e].h0], v |-> [e \in E |-> sc.ent[e].v0],
   run |-> [a \in A |-> FALSE], P |-> [a \in A |-> << >>], s |-> [a \in A |-> 0], tt |-> [a \in A |-> 0], sg |-> [a \in A |-> 1],
   any |-> [e \in E |-> FALSE], room |-> [e \in E |-> 0], slack |-> [e \in E |-> 0], now |-> 0, fresh |-> [a \in A |-> FALSE]]

\* time along the trajectory at distance s (position mode)
TimeAt(P, s) == LET i == SegAt(P, s)  l == P[i + 1].s - P[i].s IN IF s >= Length(P) THEN EndTime(P) ELSE IF l = 0 \/ s <= 0 THEN P[i].t ELSE P[i].t + MulDiv(P[i + 1].t - P[i].t, s - P[i].s, l)
Timed(A) == A.k = "traj" /\ A.tm # "none"

Begin(sc, S, a) ==
  LET A == sc.act[a]  e == A.e IN
  IF A.k = "speed" THEN [S EXCEPT !.v[e] = A.tv, !.run = [b \in DOMAIN @ |-> @[b] /\ ~(sc.act[b].e = e /\ Timed(sc.act[b]))]]
  ELSE LET P == Lay(A, IF A.rel = 0 THEN 0 ELSE S.x[A.rel], IF A.rel = 0 THEN 0 ELSE S.y[A.rel], S.v[e])
           s == Min(A.ido, Length(P))
           sg == IF A.hk = 1 THEN IF Backward(HeadAt(P, A.mode, s), LineAt(P, s)) THEN -1 ELSE 1
                 ELSE IF A.tm = "none" /\ S.v[e] < 0 THEN -1 ELSE 1
       IN [S EXCEPT !.run = [b \in DOMAIN @ |-> IF b = a THEN TRUE ELSE IF sc.act[b].e = e THEN FALSE ELSE @[b]],
                    !.P[a] = P, !.s[a] = s, !.tt[a] = TimeAt(P, s), !.sg[a] = sg, !.fresh[a] = TRUE]

Facing(A, P, sg, s) == LET h == HeadAt(P, A.mode, s) IN IF h = NotSeen THEN NotSeen ELSE IF A.hk = 0 /\ sg < 0 THEN (h + 32768) % 65536 ELSE h
\* straight on by dist (may be negative) from the trajectory's point
Leave(xy, h, dist) == LET u == Unit(h) IN <<xy[1] + SMulDiv(dist, u[1] + 5, 5) - dist, xy[2] + SMulDiv(dist, u[2] + 5, 5) - dist>>

\* one frame on a trajectory without time reference: as far as the entity's speed takes it
Drive(sc, S, a, dt, ended) ==
  LET A == sc.act[a]  e == A.e  P == S.P[a]  v == S.v[e]
      way == (Abs(v) * dt) \div 16
      dir == Sign(v) * S.sg[a]
      s == S.s[a] + dir * way
      done == v # 0 /\ way > 0 /\ (IF (dir > 0 /\ Near(s, Length(P), Tol)) \/ (dir < 0 /\ Near(s, 0, Tol)) THEN ended ELSE (dir > 0 /\ s >= Length(P)) \/ (dir < 0 /\ s <= 0))
      at == Max(0, Min(s, Length(P)))
      h == Facing(A, P, S.sg[a], at)
      xy == Along(P, at)
      \* what remains of the frame's way takes it on from the trajectory's end; which way is left open
  IN [S EXCEPT !.x[e] = xy[1], !.y[e] = xy[2], !.h[e] = h, !.s[a] = at, !.run[a] = ~done, !.room[e] = IF done THEN Abs(s - at) ELSE 0]

\* one frame on a trajectory with time reference: where it is to be at that time
Keep(sc, S, a, dt, obV, ended) ==
  LET A == sc.act[a]  e == A.e  P == S.P[a]
      t0 == IF A.tm = "rel" THEN S.tt[a] + 64 * A.scale * dt ELSE 64 * A.scale * (S.now + dt)
      t == t0 + A.off
      s == AtTime(P, A.mode, t)
      done == IF A.ido # 0 /\ Near(t, EndTime(P), 2) THEN ended ELSE t >= EndTime(P)
      past == t > EndTime(P)
      f == Facing(A, P, S.sg[a], S.s[a])
      dirs == {LineAt(P, Max(0, S.s[a] - Tol)), LineAt(P, S.s[a]), LineAt(P, Min(Length(P), S.s[a] + Tol))}
      \* forward or backward, as the entity faces; left open where that turns over
      sign == IF f = NotSeen \/ (\E l \in dirs : Near(Abs(Diff(f, l)), 16384, 400)) \/ (\E l, m \in dirs : Backward(f, l) # Backward(f, m)) THEN 0
              ELSE IF Backward(f, LineAt(P, S.s[a])) THEN -1 ELSE 1
      run == (Abs(s - S.s[a]) * 16) \div dt
      jump == S.fresh[a] /\ (A.ido # 0 \/ A.off # 0 \/ A.tm = "abs")      \* begins elsewhere on the trajectory
      v == IF jump THEN obV ELSE IF past THEN (IF S.fresh[a] THEN obV ELSE S.v[e]) ELSE IF sign = 0 THEN Sign(obV) * run ELSE sign * run
      h == Facing(A, P, S.sg[a], s)
      xy == Along(P, s)
      rest == Min((t - EndTime(P)), 64 * A.scale * dt)        \* of trajectory time
      to == IF past THEN Leave(xy, h, SMulDiv(v, rest, 1024 * A.scale)) ELSE xy
  IN [S EXCEPT !.x[e] = to[1], !.y[e] = to[2], !.h[e] = h, !.s[a] = s, !.tt[a] = t0, !.slack[e] = IF A.ido # 0 THEN 40 + Abs(v) \div 1024 ELSE 0, !.v[e] = v, !.run[a] = ~done, !.fresh[a] = FALSE]

\* an entity that follows no trajectory drives along the road (judged where it faces along it)
OnRoad(S, e) == (Near(S.h[e] % 65536, 0, 2) \/ Near(S.h[e], 65536, 2) \/ Near(S.h[e], 32768, 2)) /\ Abs(S.y[e]) < 47000 /\ S.x[e] > 200000 /\ S.x[e] < 3800000
Free(S, e, dt) == LET d == Sign(S.v[e]) * ((Abs(S.v[e]) * dt) \div 16) IN IF OnRoad(S, e) /\ ~S.any[e] THEN [S EXCEPT !.x[e] = @ + (IF Near(S.h[e], 32768, 2) THEN -d ELSE d)] ELSE [S EXCEPT !.any[e] = TRUE]

RECURSIVE All(_, _, _, _, _, _)
All(sc, S, a, dt, obV, obRun) ==
  IF a > Len(sc.act) THEN S
  ELSE LET e == sc.act[a].e IN
       All(sc, IF ~S.run[a] THEN S ELSE [(IF Timed(sc.act[a]) THEN Keep(sc, S, a, dt, obV[e], obRun[a] = 0) ELSE Drive(sc, S, a, dt, obRun[a] = 0)) EXCEPT !.any[e] = FALSE], a + 1, dt, obV, obRun)
RECURSIVE Rest(_, _, _, _, _)
Rest(sc, S, e, dt, busy) == IF e > Len(sc.ent) THEN S ELSE Rest(sc, IF e \in busy THEN S ELSE Free(S, e, dt), e + 1, dt, busy)

Frame(sc, S, g, dt, obV, obRun) ==
  LET Z == [S EXCEPT !.slack = [e \in DOMAIN @ |-> 0], !.room = [e \in DOMAIN @ |-> 0]]
      A == IF g # 0 /\ ~S.run[g] THEN Begin(sc, Z, g) ELSE Z
      busy == {sc.act[a].e : a \in {b \in 1..Len(sc.act) : A.run[b]}}
      B == All(sc, A, 1, dt, obV, obRun)
  IN [Rest(sc, B, 1, dt, busy) EXCEPT !.now = @ + dt]

Adopt(ob, x, tol) == IF x = NotSeen \/ Near(ob, x, tol) THEN ob ELSE x
Turned(ob, x, tol) == IF x = NotSeen \/ Abs(Diff(ob, x)) <= tol THEN ob ELSE x

\* observed: x, y, heading and speed of every entity, and which actions run
Step(sc, S, op, ob) ==
  LET ne == Len(sc.ent)  na == Len(sc.act)
      good == Len(ob) = 4 * ne + na
      obV == IF good THEN SubSeq(ob, 3 * ne + 1, 4 * ne) ELSE [e \in 1..ne |-> 0]
      obRun == IF good THEN SubSeq(ob, 4 * ne + 1, 4 * ne + na) ELSE [a \in 1..na |-> 0]
      B == IF op.o = "init" THEN S ELSE Frame(sc, S, op.g, op.dt, obV, obRun)
      C == IF ~good THEN B ELSE
           [B EXCEPT !.x = [e \in 1..ne |-> IF B.any[e] THEN ob[e] ELSE Adopt(ob[e], @[e], Tol + B.slack[e] + B.room[e])], !.y = [e \in 1..ne |-> IF B.any[e] THEN ob[ne + e] ELSE Adopt(ob[ne + e], @[e], Tol + B.slack[e] + B.room[e])],
                     !.h = [e \in 1..ne |-> IF B.any[e] THEN ob[2 * ne + e] ELSE Turned(ob[2 * ne + e], @[e], HTol)],
                     !.v = [e \in 1..ne |-> IF B.any[e] /\ ~OnRoad(B, e) THEN ob[3 * ne + e] ELSE Adopt(ob[3 * ne + e], @[e], IF op.o = "init" THEN 1 ELSE Max(4, (2 * 16 * (Tol + B.slack[e])) \div Max(1, op.dt)))]]
  IN [s |-> C, r |-> C.x \o C.y \o C.h \o C.v \o [a \in 1..na |-> IF C.run[a] THEN 1 ELSE 0]]
=============================================================================
