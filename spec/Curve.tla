------------------------------- MODULE Curve -------------------------------
(* Roads in space: the reference line bends, rises and banks, lanes change   *)
(* their widths smoothly.  Lengths in units of 2^-10 m, directions and angles*)
(* in units of 2^-15, curvatures in units of 2^-20 per m.                    *)
(* sc.roads[i] = [len, geo, elev, bank, off, lanes]; geo[n] = [k, s, len, x, *)
(*   y, c, n, k0, k1]: from (x, y) in direction (c, n), k = "arc": with the  *)
(*   curvature going from k0 to k1; k = "poly": along v = k0 u^2 + k1 u^3    *)
(*   (k1 in units of 2^-26) with the length that the description says.       *)
(* elev, bank, off and the widths of lanes[l] = [id, w] are piecewise cubic, *)
(*   [s, a, b, c, d] with b, c, d in units of 2^-16, 2^-24, 2^-34; the bank  *)
(*   angle times 32 is given.                                                *)
(* The reference line is what the curvature makes of it step by step: a      *)
(* point follows from the one before it (at most 2 m back), the first ones of*)
(* a geometry from its start.                                                *)
EXTENDS Arith, Sequences, TLC

One == 32768
M(a, b) == (a * b) \div One

\* ---- smooth profiles -------------------------------------------------------
RECURSIVE Rec(_, _, _)
Rec(p, s, i) == IF i < Len(p) /\ p[i + 1].s <= s THEN Rec(p, s, i + 1) ELSE i
Val(q, ds) == LET e == q.c + (q.d * ds) \div 1048576   g == q.b + (e * ds) \div 262144 IN q.a + (g * ds) \div 65536
Dif(q, ds) == LET e == 2 * q.c + (3 * ((q.d * ds) \div 1048576)) IN q.b + (e * ds) \div 262144
At(p, s) == IF p = << >> \/ p[1].s > s THEN 0 ELSE LET q == p[Rec(p, s, 1)] IN Val(q, s - q.s)
Slope(p, s) == IF p = << >> \/ p[1].s > s THEN 0 ELSE LET q == p[Rec(p, s, 1)] IN Dif(q, s - q.s)       \* in units of 2^-16

\* ---- the reference line ----------------------------------------------------
\* direction d = <<c, n>> turned by a small angle
Turn(d, a) == LET ca == One - ((a * a) \div 65536)  sa == a - (((a * a) \div One) * a) \div 196608
              IN << (d[1] * ca - d[2] * sa) \div One, (d[2] * ca + d[1] * sa) \div One >>
\* where the line is ds on from point p = [x, y, d], with the curvature going from ka to kb
On(p, ds, ka, kb) ==
  LET tot == (((ka + kb) \div 2) * ds) \div One
      avg == (((2 * ka + kb) \div 6) * ds) \div One
      ch  == ds - ((((tot * tot) \div 24) \div One) * ds) \div One
      m   == Turn(p.d, avg)
  IN [x |-> p.x + (m[1] * ch) \div One, y |-> p.y + (m[2] * ch) \div One, d |-> Turn(p.d, tot)]

Geo(r, s) == r.geo[Rec(r.geo, s, 1)]
KAt(g, s) == IF g.len = 0 THEN g.k0 ELSE g.k0 + SMulDiv(g.k1 - g.k0, s - g.s, g.len)
First(g) == [x |-> g.x, y |-> g.y, d |-> <<g.c, g.n>>]
\* the point at s, given the last one known (at p.s)
Ahead(g, p, s) == IF s - g.s <= 2048 THEN On(First(g), s - g.s, g.k0, KAt(g, s)) ELSE On(p, s - p.s, KAt(g, p.s), KAt(g, s))

\* v = f(u) and f'(u) for the polynomial pieces
PolyV(g, w) == LET e == g.k0 + (g.k1 * w) \div 65536  q == (e * w) \div 16384 IN (q * w) \div 65536
PolyS(g, w) == LET e == 2 * g.k0 + 3 * ((g.k1 * w) \div 65536) IN (e * w) \div 32768                  \* units of 2^-15

\* ---- the surface -----------------------------------------------------------
\* cosine and sine of the angle whose tangent is w (small; units of 2^-15)
CosT(w) == One - M(w, w) \div 2 + (3 * M(M(w, w), M(w, w))) \div 8
SinT(w) == M(w, CosT(w))
\* the axes of the road at s: along, to the left, up (direction d of the reference line)
Axes(r, s, d) ==
  LET zp == Slope(r.elev, s) \div 2    cp == CosT(zp)   sp == -SinT(zp)
      b  == At(r.bank, s)              cr == One - M(b, b) \div 2   sr == b - M(M(b, b), b) \div 6
  IN << <<M(d[1], cp), M(d[2], cp), -sp>>,
        <<M(M(d[1], sp), sr) - M(d[2], cr), M(M(d[2], sp), sr) + M(d[1], cr), M(cp, sr)>>,
        <<M(M(d[1], sp), cr) + M(d[2], sr), M(M(d[2], sp), cr) - M(d[1], sr), M(cp, cr)>> >>

\* ---- lanes -----------------------------------------------------------------
Ids(r) == {r.lanes[l].id : l \in 1..Len(r.lanes)}
Lane(r, id) == r.lanes[CHOOSE l \in 1..Len(r.lanes) : r.lanes[l].id = id]
Width(r, id, s) == IF id \in Ids(r) THEN At(Lane(r, id).w, s) ELSE 0
WSlope(r, id, s) == IF id \in Ids(r) THEN Slope(Lane(r, id).w, s) ELSE 0
RECURSIVE Sum(_, _, _), SumS(_, _, _)
In(id) == IF id < 0 THEN id + 1 ELSE id - 1
Sum(r, id, s) == IF id = 0 THEN 0 ELSE Width(r, id, s) + Sum(r, In(id), s)
SumS(r, id, s) == IF id = 0 THEN 0 ELSE WSlope(r, id, s) + SumS(r, In(id), s)
Centre(r, id, s) == At(r.off, s) + ((IF id < 0 THEN -1 ELSE 1) * (2 * Sum(r, id, s) - Width(r, id, s))) \div 2
CSlope(r, id, s) == (Slope(r.off, s) + ((IF id < 0 THEN -1 ELSE 1) * (2 * SumS(r, id, s) - WSlope(r, id, s))) \div 2) \div 2    \* units of 2^-15
\* the lane that contains t, or else the nearest one
LaneAt(r, s, t) ==
  LET d(l) == Abs(t - Centre(r, l, s))
      inn  == {l \in Ids(r) : 2 * d(l) < Width(r, l, s)}
  IN IF inn # {} THEN CHOOSE l \in inn : TRUE ELSE CHOOSE l \in Ids(r) : \A m \in Ids(r) : d(l) <= d(m)

\* ---- positions -------------------------------------------------------------
\* p = reference point at s; t: lateral position; lane; a = <<cos, sin>> of the heading relative to the road (abs: relative to the lane otherwise)
Seen(r, s, p, lane, t, a, rel) ==
  LET ax == Axes(r, s, p.d)
      ls == IF rel THEN CSlope(r, lane, s) ELSE 0
      h  == << (a[1] * CosT(ls) - a[2] * SinT(ls)) \div One, (a[2] * CosT(ls) + a[1] * SinT(ls)) \div One >>
      dl == -M(a[1], (t * (Slope(r.bank, s) \div 2)) \div 32768)        \* the bank angle changes along the way
      f(n) == M(h[1], ax[1][n]) + M(h[2], ax[2][n]) - M(dl, ax[3][n])
  IN << s, lane, t - Centre(r, lane, s), p.x + (t * ax[2][1]) \div One, p.y + (t * ax[2][2]) \div One, At(r.elev, s) + (t * ax[2][3]) \div One,
        f(1), f(2), f(3), M(h[1], ax[2][3]) - M(h[2], ax[1][3]), t, Width(r, lane, s) >>

\* tolerances: return code, s, lane, offset, x, y, z, forward direction (3), left direction (z), t, width
Tol == << 0, 4, 0, 5, 5, 5, 5, 60, 60, 60, 80, 5, 4 >>
Fit(exp, ob, tol) == IF Len(exp) # Len(ob) THEN exp ELSE [n \in 1..Len(exp) |-> IF Near(exp[n], ob[n], tol[n]) THEN ob[n] ELSE exp[n]]

Start(sc) == [ref |-> << >>, cur |-> [i |-> 0]]

Lim(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
XyTol == << 0, 600, 0, 40, 5, 5, 40, 700, 700, 2200, 700, 40, 40 >>
Got(ob) == IF Len(ob) # 13 THEN [x |-> 0] ELSE [s |-> ob[2], lane |-> ob[3], off |-> ob[4], x |-> ob[5], y |-> ob[6], z |-> ob[7]]
Dir(op) == << op.c, op.n >>
\* ob of "ref": code, x, y, z, direction (2), pitch, roll, curvature
RefTol == << 0, 4, 4, 4, 20, 20, 20, 20, 24 >>
Step(sc, S, op, ob) ==
  CASE op.o = "ref" ->
         LET r == sc.roads[op.i]   g == Geo(r, op.s)
             last == IF S.ref = << >> THEN [s |-> 0] ELSE S.ref[Len(S.ref)]
             up == << At(r.elev, op.s) >>
             zp == Slope(r.elev, op.s) \div 2
             rest == << M(zp, CosT(zp)), At(r.bank, op.s) >>           \* sine of the (downward) pitch, roll
             keep == IF Len(ob) = 9 /\ Abs(ob[5]) <= One /\ Abs(ob[6]) <= One THEN ob ELSE [n \in 1..9 |-> 0]
             seen == [i |-> op.i, s |-> op.s, x |-> keep[2], y |-> keep[3], d |-> <<keep[5], keep[6]>>]
         IN IF g.k = "arc"
            THEN LET e == Ahead(g, last, op.s)
                 IN [s |-> [S EXCEPT !.ref = Append(@, seen)], r |-> Fit(<<0, e.x, e.y>> \o up \o <<e.d[1], e.d[2]>> \o rest \o <<KAt(g, op.s)>>, ob, RefTol)]
            ELSE LET dx == Lim(keep[2] - g.x, 45000)   dy == Lim(keep[3] - g.y, 45000)
                     w  == (dx * g.c + dy * g.n) \div One                                            \* along and across the start direction
                     v  == (dy * g.c - dx * g.n) \div One
                     sl == PolyS(g, w)
                     lc == M(keep[5], g.c) + M(keep[6], g.n)   ln == M(keep[6], g.c) - M(keep[5], g.n)   \* the direction seen from the start direction
                     px == IF op.s - g.s <= 2048 \/ S.ref = << >> THEN g.x ELSE last.x
                     py == IF op.s - g.s <= 2048 \/ S.ref = << >> THEN g.y ELSE last.y
                     st == IF op.s - g.s <= 2048 \/ S.ref = << >> THEN op.s - g.s ELSE op.s - last.s
                     ex == Lim(keep[2] - px, 20000)   ey == Lim(keep[3] - py, 20000)
                     far == ex * ex + ey * ey
                     okk == /\ w >= -4 /\ Near(v, PolyV(g, w), 5)                                      \* on the curve
                            /\ lc > 0 /\ Near(ln, M(sl, lc), 30) /\ Near(M(lc, lc) + M(ln, ln), One, 40)      \* and along it
                            /\ Near(far, st * st, (st * st) \div (IF g.loose = 1 THEN 3 ELSE 50) + 16 * st + 64)
                 IN [s |-> [S EXCEPT !.ref = Append(@, seen)],
                     r |-> IF ~okk THEN << v, PolyV(g, w), far, st * st, ln, M(sl, lc) >> ELSE Fit(<<0, keep[2], keep[3]>> \o up \o <<keep[5], keep[6]>> \o rest \o <<keep[9]>>, ob, RefTol)]
    [] op.o = "road" ->
         LET r == sc.roads[op.i]  p == S.ref[op.j]  l == LaneAt(r, p.s, op.t)
         IN [s |-> [S EXCEPT !.cur = [i |-> op.i, j |-> op.j, t |-> op.t, b |-> op.t] @@ Got(ob)], r |-> Fit(<<0>> \o Seen(r, p.s, p, l, op.t, <<IF op.t < 0 THEN One ELSE -One, 0>>, TRUE), ob, Tol)]
    [] op.o = "lane" ->
         LET r == sc.roads[op.i]  p == S.ref[op.j]  t == Centre(r, op.lane, p.s) + op.off
         IN [s |-> [S EXCEPT !.cur = [i |-> op.i, j |-> op.j, t |-> t, b |-> op.lane] @@ Got(ob)], r |-> Fit(<<0>> \o Seen(r, p.s, p, op.lane, t, <<IF op.lane < 0 THEN One ELSE -One, 0>>, TRUE), ob, Tol)]
    [] op.o = "xy" ->        \* the same point once more, by its world coordinates, and a heading relative to the road
         LET c == S.cur  r == sc.roads[c.i]  p == S.ref[c.j]  l == LaneAt(r, p.s, c.t)
         IN [s |-> S, r |-> Fit(<<0>> \o Seen(r, p.s, p, l, c.t, Dir(op), FALSE), ob, XyTol)]
    [] op.o = "xyz" ->       \* the same point with the same orientation
         LET c == S.cur  r == sc.roads[c.i]  p == S.ref[c.j]  l == LaneAt(r, p.s, c.t)
         IN [s |-> S, r |-> Fit(<<0>> \o Seen(r, p.s, p, l, c.t, <<IF c.b < 0 THEN One ELSE -One, 0>>, TRUE), ob, XyTol)]
    [] op.o = "move" ->      \* along the lane by a few metres: that far, on the lane, with the same offset
         LET c == S.cur  dx == Lim(ob[5] - c.x, 20000)  dy == Lim(ob[6] - c.y, 20000)  dz == Lim(ob[7] - c.z, 5000)
             far == dx * dx + dy * dy + dz * dz
             r == sc.roads[c.i]
             fwd == (c.b < 0) = (op.d > 0)
             okk == Len(ob) = 13 /\ Near(far, op.d * op.d, (op.d * op.d) \div 40 + 8 * Abs(op.d) + 64) /\ (ob[2] > c.s) = fwd
             exp == << 0, ob[2], c.lane, c.off, ob[5], ob[6], ob[7], ob[8], ob[9], ob[10], ob[11], Centre(r, c.lane, ob[2]) + c.off, Width(r, c.lane, ob[2]) >>
         IN [s |-> [S EXCEPT !.cur = [c EXCEPT !.i = 0]], r |-> IF okk THEN Fit(exp, ob, Tol) ELSE << far, op.d * op.d, IF fwd THEN 1 ELSE -1 >>]
=============================================================================
