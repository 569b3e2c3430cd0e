-------------------------------- MODULE Keep --------------------------------
(* Speed profiles and distance keeping of entities that drive in the same    *)
(* direction on a straight road, under default control.  Lengths in 2^-12 m, *)
(* speeds and accelerations in 2^-12 m/s(2), profile time in 2^-16 s, frame  *)
(* time in 1/16 s.                                                           *)
(* sc = [dir (1: with the road, -1: against), ent: << [s0, v0] >>, act]      *)
(* act[a] = [k |-> "speed", e, tv]                                           *)
(*        | [k |-> "profile", e, ref (0: absolute), p: << [t, v] >>, amax,   *)
(*           dmax (0: no limit)] : t in 1/16 s since the entry before, -1: as*)
(*           fast as allowed                                                 *)
(*        | [k |-> "dist", e, ref, x, gap (1: x is a time in 1/16 s), free,  *)
(*           side ("trail", "lead", "any"), cont, cup, cdn, amax, dmax, jup, *)
(*           jdn, vmax] : amax = 0: at once, otherwise within these limits   *)
(* op = [o, g: action to start (0: none), dt]                                *)
EXTENDS Arith, Sequences

Tol == 24
FT == 4096
Box == 5 * 4096       \* length of the entities

\* ---- speed profiles -------------------------------------------------------
\* corners of the profile: << [t, v] >>, the first one at the start
RECURSIVE Corners(_, _, _, _, _, _)
Corners(A, off, i, t, v, out) ==
  IF i > Len(A.p) THEN out
  ELSE LET w    == A.p[i].v + off
           dv   == w - v
           lim  == IF dv > 0 THEN A.amax ELSE A.dmax
           fast == IF lim = 0 THEN 0 ELSE MulDiv(Abs(dv), 65536, lim)
           want == A.p[i].t * FT
           T    == IF i = 1 /\ A.p[1].t = 0 THEN 0 ELSE IF A.p[i].t < 0 THEN fast ELSE Max(want, fast)
       IN Corners(A, off, i + 1, t + T, w, Append(out, [t |-> t + T, v |-> w]))
Profile(A, v, off) == Corners(A, off, 1, 0, v, <<[t |-> 0, v |-> v]>>)
\* speed at time t: of corners at the same time the last one counts
SpeedAt(C, t) ==
  LET n == Len(C)
      i == CHOOSE k \in 1..n : C[k].t <= t /\ (k = n \/ C[k + 1].t > t)
  IN IF i = n THEN C[n].v ELSE C[i].v + SMulDiv(C[i + 1].v - C[i].v, t - C[i].t, C[i + 1].t - C[i].t)

\* ---- distances ------------------------------------------------------------
Between(sc, S, e, f) == sc.dir * (S.s[f] - S.s[e])
Measured(sc, S, A) ==
  LET d == Between(sc, S, A.e, A.ref) IN IF ~A.free THEN d ELSE IF Abs(d) <= Box THEN 0 ELSE d - Sign(d) * Box

Start(sc) ==
  LET E == 1..Len(sc.ent)  A == 1..Len(sc.act) IN
  [v |-> [e \in E |-> sc.ent[e].v0], s |-> [e \in E |-> sc.ent[e].s0], run |-> [a \in A |-> FALSE],
   C |-> [a \in A |-> << >>], t |-> [a \in A |-> 0], acc |-> [a \in A |-> 0], side |-> [a \in A |-> "trail"]]

\* opt: on which side an entity counts that is neither ahead nor behind
Begin(sc, S, a, opt) ==
  LET A == sc.act[a]  e == A.e
      Z == [S EXCEPT !.run = [b \in DOMAIN @ |-> IF b = a THEN A.k # "speed" ELSE IF sc.act[b].e = e THEN FALSE ELSE @[b]]]
  IN CASE A.k = "speed" -> [Z EXCEPT !.v[e] = A.tv]
       [] A.k = "profile" -> [Z EXCEPT !.C[a] = Profile(A, S.v[e], IF A.ref = 0 THEN 0 ELSE S.v[A.ref]), !.t[a] = 0]
       [] A.k = "dist" -> [Z EXCEPT !.acc[a] = 0, !.side[a] = IF A.side # "any" THEN A.side ELSE IF Abs(Measured(sc, S, A)) <= Tol THEN opt ELSE IF Measured(sc, S, A) < 0 THEN "lead" ELSE "trail"]

Along(sc, S, a, dt, ended) ==
  LET A == sc.act[a]  C == S.C[a]  n == Len(C)
      t == S.t[a] + dt * FT
      flat == n > 1 /\ C[n].v = C[n - 1].v /\ t >= C[n - 1].t - 2      \* nothing left to do: may end early
      near == Near(t, C[n].t, 2) /\ t # C[n].t
      done == IF (flat /\ t < C[n].t) \/ near THEN ended ELSE t >= C[n].t
  IN [S EXCEPT !.v[A.e] = IF done THEN C[n].v ELSE SpeedAt(C, t), !.t[a] = t, !.run[a] = ~done]

Limit(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Hold(sc, S, a, dt, ended) ==
  LET A == sc.act[a]  e == A.e
      amount == IF A.gap = 1 THEN SMulDiv(Abs(S.v[A.ref]), A.x, 16) ELSE A.x
      diff == Measured(sc, S, A) - (IF S.side[a] = "lead" THEN -amount ELSE amount)
      done == ~A.cont /\ (IF Near(Abs(diff), 410, Tol) THEN ended ELSE Abs(diff) < 410)
      \* critically damped spring of strength c for acceleration and deceleration, within the limits of acceleration, jerk and speed
      c == IF diff < 0 THEN A.cup ELSE A.cdn
      want == Limit(diff * c * c - (S.v[e] - S.v[A.ref]) * 2 * c, -A.dmax, A.amax)
      acc == IF want < 0 /\ want < S.acc[a] /\ A.jdn > 0 THEN Max(want, S.acc[a] - SMulDiv(A.jdn, dt, 16))
             ELSE IF want >= 0 /\ want > S.acc[a] /\ A.jup > 0 THEN Min(want, S.acc[a] + SMulDiv(A.jup, dt, 16)) ELSE want
  IN IF A.amax = 0 THEN [S EXCEPT !.s[e] = @ + sc.dir * diff, !.v[e] = S.v[A.ref], !.run[a] = ~done]
     ELSE [S EXCEPT !.acc[a] = acc, !.v[e] = Limit(@ + SMulDiv(acc, dt, 16), -A.vmax, A.vmax), !.run[a] = ~done]

RECURSIVE All(_, _, _, _, _)
All(sc, S, a, dt, obRun) ==
  IF a > Len(sc.act) THEN S
  ELSE All(sc, IF ~S.run[a] THEN S ELSE IF sc.act[a].k = "profile" THEN Along(sc, S, a, dt, obRun[a] = 0) ELSE Hold(sc, S, a, dt, obRun[a] = 0), a + 1, dt, obRun)

Frame(sc, S, g, dt, obRun, opt) ==
  LET A == IF g # 0 /\ ~S.run[g] THEN Begin(sc, S, g, opt) ELSE S
      B == All(sc, A, 1, dt, obRun)
  IN [B EXCEPT !.s = [e \in DOMAIN @ |-> @[e] + sc.dir * SMulDiv(B.v[e], dt, 16)]]

Adopt(ob, x) == IF Near(ob, x, Tol) THEN ob ELSE x
\* observed: speed and s of every entity, and which actions run
Step(sc, S, op, ob) ==
  LET ne == Len(sc.ent)  na == Len(sc.act)
      good == Len(ob) = 2 * ne + na
      obRun == IF good THEN SubSeq(ob, 2 * ne + 1, 2 * ne + na) ELSE [a \in 1..na |-> 0]
      Judged(B) == IF ~good THEN B ELSE [B EXCEPT !.v = [e \in 1..ne |-> Adopt(ob[e], @[e])], !.s = [e \in 1..ne |-> Adopt(ob[ne + e], @[e])]]
      Shown(C) == C.v \o C.s \o [a \in 1..na |-> IF C.run[a] THEN 1 ELSE 0]
      With(opt) == Judged(IF op.o = "init" THEN S ELSE Frame(sc, S, op.g, op.dt, obRun, opt))
      C == With("trail")
      beside == op.g # 0 /\ sc.act[op.g].k = "dist"
      D == IF Shown(C) # ob /\ beside THEN With("lead") ELSE C
      F == IF Shown(D) = ob THEN D ELSE C
  IN [s |-> F, r |-> Shown(F)]
=============================================================================
