------------------------------ MODULE Lateral ------------------------------
(* Lane changes and lane offsets of entities under default control on a      *)
(* straight road.  Lengths in 2^-12 m, speeds in 2^-12 m/s, time of actions  *)
(* in 2^-16 s, frame time in 1/16 s, direction of motion (heading) as its    *)
(* sine in 2^-12.                                                            *)
(* sc.w.l, sc.w.r: lane widths to the left and right (from the centre);      *)
(* sc.ent[e] = [s0, lane, off, v0, dir]; sc.act[a] =                         *)
(*  [k |-> "speed", e, tv],                                                  *)
(*  [k |-> "change", e, shape, dim, x, tk, lane, ref, off],                  *)
(*  [k |-> "offset", e, shape, acc (1/16 m/s2), tk, tv, ref];                *)
(* action a starts in the frames in which the environment chooses g = a.     *)
(* Rounding: after each frame the state takes the observed value if it is    *)
(* within Tol of the specified one.                                          *)
EXTENDS Arith, Sequences

Tol == 40
FT == 4096            \* 2^-16 s per 1/16 s
\* (1 - cos(pi k / 128)) / 2 in 2^-20 and sin(pi k / 128) in 2^-14
Half == <<0, 158, 632, 1421, 2525, 3943, 5675, 7719, 10074, 12739, 15712, 18992, 22576, 26462, 30648, 35131, 39909, 44979, 50337, 55981, 61907, 68112, 74591, 81341, 88358, 95638, 103176, 110967, 119008, 127292, 135816, 144574, 153560, 162770, 172198, 181837, 191683, 201729, 211970, 222399, 233009, 243795, 254750, 265867, 277140, 288562, 300126, 311825, 323652, 335599, 347661, 359828, 372095, 384454, 396896, 409416, 422004, 434655, 447359, 460110, 472899, 485719, 498562, 511421, 524288, 537155, 550014, 562857, 575677, 588466, 601217, 613921, 626572, 639160, 651680, 664122, 676481, 688748, 700915, 712977, 724924, 736751, 748450, 760014, 771436, 782709, 793826, 804781, 815567, 826177, 836606, 846847, 856893, 866739, 876378, 885806, 895016, 904002, 912760, 921284, 929568, 937609, 945400, 952938, 960218, 967235, 973985, 980464, 986669, 992595, 998239, 1003597, 1008667, 1013445, 1017928, 1022114, 1026000, 1029584, 1032864, 1035837, 1038502, 1040857, 1042901, 1044633, 1046051, 1047155, 1047944, 1048418, 1048576>>
Sine == <<0, 402, 804, 1205, 1606, 2006, 2404, 2801, 3196, 3590, 3981, 4370, 4756, 5139, 5520, 5897, 6270, 6639, 7005, 7366, 7723, 8076, 8423, 8765, 9102, 9434, 9760, 10080, 10394, 10702, 11003, 11297, 11585, 11866, 12140, 12406, 12665, 12916, 13160, 13395, 13623, 13842, 14053, 14256, 14449, 14635, 14811, 14978, 15137, 15286, 15426, 15557, 15679, 15791, 15893, 15986, 16069, 16143, 16207, 16261, 16305, 16340, 16364, 16379, 16384, 16379, 16364, 16340, 16305, 16261, 16207, 16143, 16069, 15986, 15893, 15791, 15679, 15557, 15426, 15286, 15137, 14978, 14811, 14635, 14449, 14256, 14053, 13842, 13623, 13395, 13160, 12916, 12665, 12406, 12140, 11866, 11585, 11297, 11003, 10702, 10394, 10080, 9760, 9434, 9102, 8765, 8423, 8076, 7723, 7366, 7005, 6639, 6270, 5897, 5520, 5139, 4756, 4370, 3981, 3590, 3196, 2801, 2404, 2006, 1606, 1205, 804, 402, 0>>

RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN SqrtIn(x, m, hi) ELSE SqrtIn(x, lo, m)
Sqrt(x) == IF x <= 0 THEN 0 ELSE SqrtIn(x, 0, 46341)

-----------------------------------------------------------------------------
(* Lanes *)

RECURSIVE SumTo(_, _)
SumTo(w, n) == IF n = 0 THEN 0 ELSE w[n] + SumTo(w, n - 1)
\* lateral position of the centre of a lane
Centre(sc, lane) == IF lane > 0 THEN SumTo(sc.w.l, lane) - sc.w.l[lane] \div 2 ELSE -(SumTo(sc.w.r, -lane) - sc.w.r[-lane] \div 2)
Lanes(sc) == (1..Len(sc.w.l)) \cup {-n : n \in 1..Len(sc.w.r)}
Dist(sc, lane, t) == Abs(t - Centre(sc, lane)) - (IF lane > 0 THEN sc.w.l[lane] ELSE sc.w.r[-lane]) \div 2      \* < 0: within the lane
LaneAt(sc, t) == CHOOSE l \in Lanes(sc) : \A m \in Lanes(sc) : Dist(sc, l, t) <= Dist(sc, m, t)
Border(sc, t) == Near(Dist(sc, LaneAt(sc, t), t), 0, 48)
\* k lanes further to the left of lane (in road direction), lane 0 not counting
Beside(lane, k) == LET n == lane + k IN IF n = 0 \/ Sign(n) # Sign(lane) THEN n + Sign(k) ELSE n

-----------------------------------------------------------------------------
(* Shapes: value and slope after p of T *)

Frac(p, T) == MulDiv(p, 16384, T)                    \* in 2^-14
Shape(shape, a, b, p, T) ==
  IF T = 0 \/ p >= T \/ shape = "step" THEN b
  ELSE LET u == Frac(p, T)  d == b - a IN
       CASE shape = "linear" -> a + SMulDiv(d, p, T)
         [] shape = "cubic" -> a + SMulDiv(d, ((u * u) \div 16384) * (3 * 16384 - 2 * u), 268435456)
         [] shape = "sin" -> LET k == u \div 128  r == u % 128
                             IN a + SMulDiv(d, Half[k + 1] + ((Half[k + 2] - Half[k + 1]) * r) \div 128, 1048576)
\* lateral distance per unit of the parameter, times m
Slope(shape, a, b, p, T, m) ==
  LET u == Frac(p, T)  d == b - a IN
  CASE shape = "linear" -> SMulDiv(d, m, T)
    [] shape = "cubic" -> SMulDiv(SMulDiv(d, m, T), 6 * ((u * (16384 - u)) \div 16384), 16384)
    [] shape = "sin" -> LET k == u \div 128  r == u % 128
                            q == Sine[k + 1] + ((IF k < 128 THEN Sine[k + 2] - Sine[k + 1] ELSE 0) * r) \div 128
                        IN SMulDiv(SMulDiv(d, m, T), (q * 355) \div 226, 16384)
PeakDur(shape, d, rate) == LET n == MulDiv(Abs(d), 65536, rate) IN Max(1, IF shape = "cubic" THEN (3 * n) \div 2 ELSE IF shape = "sin" THEN (355 * n) \div 226 ELSE n)
AccDur(shape, d, acc) ==      \* acc in 1/16 m/s2
  LET f == IF Abs(d) > 20000 THEN 2 ELSE 1              \* (keeps the square within 32 bits)
      root(n) == 16 * f * Sqrt(MulDiv(Abs(d), (n * 4096) \div (f * f), acc))
  IN IF d = 0 \/ shape = "step" THEN 0 ELSE IF shape = "sin" THEN MulDiv(root(8), 355, 113) ELSE root(96)

-----------------------------------------------------------------------------
Start(sc) ==
  LET E == 1..Len(sc.ent)  A == 1..Len(sc.act) IN
  [v |-> [e \in E |-> sc.ent[e].v0], s |-> [e \in E |-> sc.ent[e].s0], t |-> [e \in E |-> Centre(sc, sc.ent[e].lane) + sc.ent[e].off],
   h |-> [e \in E |-> 0], run |-> [a \in A |-> FALSE], n |-> [a \in A |-> 0], from |-> [a \in A |-> 0], to |-> [a \in A |-> 0], p |-> [a \in A |-> 0], T |-> [a \in A |-> 0],
   moved |-> [e \in E |-> FALSE], lost |-> FALSE, slack |-> [e \in E |-> 0], lane |-> [e \in E |-> sc.ent[e].lane]]

\* where action a leads to
Goal(sc, S, a) ==
  LET A == sc.act[a]  e == A.e  lane == S.lane[e] IN
  IF A.k = "change" THEN Centre(sc, IF A.tk = "abs" THEN A.lane ELSE Beside(S.lane[A.ref], A.lane * sc.ent[A.ref].dir)) + A.off
  ELSE IF A.tk = "abs" THEN Centre(sc, lane) + A.tv ELSE S.t[A.ref] + sc.ent[A.ref].dir * A.tv
\* (a lane change to a lane that is not there is not specified: the rest of the run is not judged)
Exists(sc, S, a) ==
  LET A == sc.act[a] IN IF A.k # "change" THEN TRUE ELSE (IF A.tk = "abs" THEN A.lane ELSE Beside(S.lane[A.ref], A.lane * sc.ent[A.ref].dir)) \in Lanes(sc)

Begin(sc, S, a) ==
  LET A == sc.act[a]  e == A.e IN
  IF A.k = "speed" THEN [S EXCEPT !.v[e] = A.tv, !.n[a] = @ + 1]
  ELSE LET g == Goal(sc, S, a)
           d == g - S.t[e]
           T == IF A.k = "offset" THEN AccDur(A.shape, d, A.acc)
                ELSE IF A.shape = "step" THEN 0 ELSE IF A.dim = "rate" THEN PeakDur(A.shape, d, A.x) ELSE A.x
       IN [S EXCEPT !.run = [b \in DOMAIN @ |-> IF b = a THEN TRUE ELSE IF sc.act[b].e = e THEN FALSE ELSE @[b]],
                    !.n[a] = @ + 1, !.from[a] = S.t[e], !.to[a] = g, !.p[a] = 0, !.T[a] = T, !.h[e] = IF A.k = "change" THEN 0 ELSE @]

Len12(v, dt) == (Abs(v) * dt) \div 16
NotSeen == 99999      \* direction not determined

\* one frame of a lane change: lateral and longitudinal motion together make up the distance driven
Change(sc, S, a, dt, ended) ==
  LET A == sc.act[a]  e == A.e  f == S.from[a]  g == S.to[a]  T == S.T[a]  L == Len12(S.v[e], dt)
      sv == Sign(S.v[e])
      dir == sc.ent[e].dir
      \* lateral distance of this frame by the slope at its beginning
      lat == IF T = 0 THEN 0 ELSE IF A.dim = "dist" THEN Abs(Slope(A.shape, f, g, S.p[a], T, 4096)) ELSE Abs(Slope(A.shape, f, g, S.p[a], T, dt * FT))
      side == Sign(g - f)
      slow == A.dim # "dist" /\ lat > L
      lg == CASE T = 0 -> L
              [] A.dim = "dist" -> MulDiv(L, 4096, Sqrt(16777216 + lat * lat))
              [] slow -> 0
              [] OTHER -> Sqrt(L * L - lat * lat)
      dp == CASE T = 0 -> 0 [] A.dim = "dist" -> lg [] slow -> MulDiv(L, T, Abs(g - f)) [] OTHER -> dt * FT
      p == Min(S.p[a] + dp, T)
      close == T > 0 /\ f # g /\ (A.dim # "time" \/ slow \/ S.p[a] % FT # 0) /\ Near(S.p[a] + dp, T, IF A.dim = "dist" THEN 60 ELSE 64)
      done == IF close THEN ended ELSE p >= T \/ (f = g /\ ended)      \* (there already, but for a rounding error: until the end)
      t == IF done \/ f = g THEN g ELSE Shape(IF slow THEN "linear" ELSE A.shape, f, g, p, T)
      sin == IF A.dim = "dist" THEN MulDiv(lat, 4096, Sqrt(16777216 + lat * lat)) ELSE IF L = 0 THEN 0 ELSE Min(4096, MulDiv(lat, 4096, L))
  IN IF S.v[e] = 0 THEN [S EXCEPT !.moved[e] = TRUE]
     ELSE [S EXCEPT !.t[e] = t, !.lane[e] = LaneAt(sc, t), !.s[e] = @ + dir * sv * lg, !.p[a] = p, !.run[a] = ~done, !.moved[e] = TRUE, !.slack[e] = IF T > 0 /\ A.dim # "dist" /\ lat < L + 12 /\ L - lat < 300 THEN Sqrt(Min(40 * L, 1000000)) ELSE 0,
                    !.h[e] = IF done THEN 0 ELSE IF dt = 0 THEN NotSeen ELSE side * sv * sin]

\* too slow for the lateral motion asked for: how it is stretched is not specified but for linear ones
Stretched(sc, S, a, dt) ==
  LET A == sc.act[a]  T == S.T[a] IN
  /\ A.dim # "dist" /\ A.shape \in {"sin", "cubic"} /\ T > 0 /\ dt > 0
  /\ Abs(Slope(A.shape, S.from[a], S.to[a], S.p[a], T, dt * FT)) > Len12(S.v[A.e], dt) - 12

\* one frame of a lane offset action: the offset that belongs to the time since it began
Offset(sc, S, a, dt, ended) ==
  LET A == sc.act[a]  e == A.e  f == S.from[a]  g == S.to[a]  T == S.T[a]  p == S.p[a]
      close == T > 0 /\ f # g /\ Near(p, T, 400)
      done == IF close THEN ended ELSE IF f = g THEN ended \/ p > 0 ELSE p >= T     \* (there already, but for a rounding error: one more frame)
      rate == Slope(A.shape, f, g, p, T, 4096)      \* in 1/256 m/s
      v8 == S.v[e] \div 16
  IN [S EXCEPT !.t[e] = IF done \/ f = g THEN g ELSE Shape(A.shape, f, g, p, T), !.run[a] = ~done, !.p[a] = IF f = g THEN p + dt * FT ELSE Min(p + dt * FT, T),
               !.h[e] = IF done \/ f = g THEN 0 ELSE IF Abs(S.v[e]) < 1024 THEN NotSeen ELSE Sign(S.v[e]) * SMulDiv(rate, 4096, Max(1, Sqrt(rate * rate + v8 * v8)))]

RECURSIVE AdvanceAll(_, _, _, _, _)
AdvanceAll(sc, S, a, dt, obRun) ==
  IF a > Len(sc.act) THEN S
  ELSE AdvanceAll(sc, IF ~S.run[a] THEN S ELSE IF sc.act[a].k = "change" THEN Change(sc, S, a, dt, obRun[a] = 0) ELSE Offset(sc, S, a, dt, obRun[a] = 0), a + 1, dt, obRun)

Frame(sc, S, g, dt, obRun) ==
  LET Z == [S EXCEPT !.moved = [e \in DOMAIN @ |-> FALSE], !.slack = [e \in DOMAIN @ |-> 0]]
      A == IF g # 0 /\ ~Z.run[g] THEN Begin(sc, Z, g) ELSE Z
      B == AdvanceAll(sc, A, 1, dt, obRun)
  IN [B EXCEPT !.s = [e \in DOMAIN @ |-> IF B.moved[e] THEN @[e] ELSE @[e] + sc.ent[e].dir * Sign(B.v[e]) * Len12(B.v[e], dt)]]

Adopt(ob, x, tol) == IF Near(ob, x, tol) THEN ob ELSE x

\* observed: speed, s, t, direction and lane of every entity, and which actions run
Step(sc, S, op, ob) ==
  LET ne == Len(sc.ent)  na == Len(sc.act)
      good == Len(ob) = 5 * ne + na
      obRun == IF good THEN SubSeq(ob, 5 * ne + 1, 5 * ne + na) ELSE [a \in 1..na |-> 0]
      B == IF S.lost \/ op.o = "init" THEN S ELSE IF op.g # 0 /\ ~Exists(sc, S, op.g) THEN [S EXCEPT !.lost = TRUE] ELSE Frame(sc, S, op.g, op.dt, obRun)
      C == IF ~good THEN B ELSE
           [B EXCEPT !.s = [e \in 1..ne |-> Adopt(ob[ne + e], @[e], Tol + B.slack[e])], !.t = [e \in 1..ne |-> Adopt(ob[2 * ne + e], @[e], Tol)],
                     !.lane = [e \in 1..ne |-> IF Border(sc, B.t[e]) /\ ob[4 * ne + e] \in Lanes(sc) /\ Dist(sc, ob[4 * ne + e], B.t[e]) <= 48 THEN ob[4 * ne + e] ELSE @[e]]]
      hd(e) == IF good /\ (C.h[e] = NotSeen \/ ((\E a \in 1..na : C.run[a] /\ sc.act[a].e = e) /\ Near(ob[3 * ne + e], C.h[e], 40))) THEN ob[3 * ne + e] ELSE C.h[e]
  IN IF C.lost THEN [s |-> C, r |-> ob] ELSE [s |-> C, r |-> C.v \o C.s \o C.t \o [e \in 1..ne |-> hd(e)] \o C.lane \o [a \in 1..na |-> IF C.run[a] THEN 1 ELSE 0]]
=============================================================================
