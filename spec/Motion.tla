------------------------------- MODULE Motion -------------------------------
(* Longitudinal motion of entities under default control on a straight road. *)
(* Lengths in units of 2^-12 m, speeds in 2^-12 m/s, action time in 2^-16 s, *)
(* frame time in 1/16 s.                                                     *)
(* sc.ent[e] = [s0, v0, dir (1: with the road, -1: against), vmax, amax,     *)
(*              dmax] ; sc.act[a] = [e, shape, dim, x, tk, tv, ref, cont,    *)
(*              max]: one speed action per event, event a being triggered in *)
(*              the frames in which the environment chooses g = a.           *)
(* shape: "linear" "cubic" "sin" "step"; dim: "time" (x in 1/16 s), "rate"   *)
(* (x in 2^-12 m/s2), "dist" (x in 2^-12 m); tk: "abs" (tv a speed), "delta" *)
(* (speed of entity ref + tv), "factor" (times tv/16).                       *)
(* Rounding: the code computes in floating point; after each frame the state *)
(* takes the observed value if it is within Tol of the specified one.        *)
EXTENDS Arith, Sequences

Tol == 24
FT == 4096            \* 2^-16 s per 1/16 s

\* target speed of action a, given the current speeds, limited to what the entity can do
Target(sc, v, a) ==
  LET A == sc.act[a]
      t == CASE A.tk = "abs" -> A.tv
             [] A.tk = "delta" -> v[A.ref] + A.tv
             [] A.tk = "factor" -> SMulDiv(v[A.ref] , A.tv, 16)
      m == sc.ent[A.e].vmax
  IN IF t > m THEN m ELSE IF t < -m THEN -m ELSE t
RawTarget(sc, v, a) ==
  LET A == sc.act[a] IN
  CASE A.tk = "abs" -> A.tv [] A.tk = "delta" -> v[A.ref] + A.tv [] A.tk = "factor" -> SMulDiv(v[A.ref], A.tv, 16)

\* duration (2^-16 s) of a change from v0 to v1: dv / rate
ByRate(dv, rate) == Max(1, MulDiv(Abs(dv), 65536, rate))     \* never quite instantaneous
\* ... covering dist with linearly changing speed
ByDist(v0, v1, dist) ==
  IF v0 = v1 THEN 0
  ELSE IF v0 # 0 /\ v1 # 0 /\ Sign(v0) # Sign(v1)
       THEN LET a == (Abs(v0) + 8) \div 16  b == (Abs(v1) + 8) \div 16    \* until standstill, and after it: 2 dist (|v0| + |v1|) / (v0^2 + v1^2)
            IN MulDiv(dist, 8192 * (a + b), Max(1, a * a + b * b))
       ELSE MulDiv(2 * dist, 65536, Abs(v0 + v1))

\* peak of the slope relative to the mean, in 1/64
Peak(shape) == IF shape = "cubic" THEN 96 ELSE IF shape = "sin" THEN 100 ELSE 64

Duration(sc, a, v0, v1raw, v1) ==
  LET A == sc.act[a]
      T == CASE A.shape = "step" -> 0
             [] A.dim = "time" -> A.x * FT
             [] A.dim = "rate" -> ByRate(v1 - v0, A.x)
             [] A.dim = "dist" -> ByDist(v0, v1raw, A.x)
      lim == IF v1 > v0 THEN sc.ent[A.e].amax ELSE sc.ent[A.e].dmax
  IN IF A.shape = "step" THEN 0 ELSE IF A.shape = "linear" /\ lim > 0 THEN Max(T, ByRate(v1 - v0, lim)) ELSE T

\* speed after p of T along the shape
Shape(shape, v0, v1, p, T) ==
  LET dv == v1 - v0 IN
  IF T = 0 \/ p >= T THEN v1
  ELSE CASE shape = "linear" -> v0 + SMulDiv(dv, p, T)
         [] shape = "cubic" -> LET P == p \div FT  Q == T \div FT     \* whole frames of 1/16 s
                               IN v0 + SMulDiv(dv, P * P * (3 * Q - 2 * P), Q * Q * Q)
         [] shape = "sin" -> LET k == (32 * (p \div FT)) \div (T \div FT)
                             IN v0 + SMulDiv(dv, Sin32[k + 1], 1048576)
         [] OTHER -> v1

Start(sc) == [v |-> [e \in 1..Len(sc.ent) |-> sc.ent[e].v0], s |-> [e \in 1..Len(sc.ent) |-> sc.ent[e].s0], odo |-> [e \in 1..Len(sc.ent) |-> 0],
              run |-> [a \in 1..Len(sc.act) |-> FALSE], n |-> [a \in 1..Len(sc.act) |-> 0], from |-> [a \in 1..Len(sc.act) |-> 0],
              p |-> [a \in 1..Len(sc.act) |-> 0], T |-> [a \in 1..Len(sc.act) |-> 0], hit |-> [a \in 1..Len(sc.act) |-> FALSE]]

\* start of action a: it replaces any running one of its entity
Begin(sc, S, a) ==
  LET e  == sc.act[a].e
      v0 == S.v[e]
      v1 == Target(sc, S.v, a)
      T  == Duration(sc, a, v0, RawTarget(sc, S.v, a), v1)
  IN [S EXCEPT !.run = [b \in DOMAIN @ |-> IF b = a THEN TRUE ELSE IF sc.act[b].e = e THEN FALSE ELSE @[b]],
               !.n[a] = @ + 1, !.from[a] = v0, !.p[a] = 0, !.T[a] = T, !.hit[a] = FALSE,
               !.v[e] = IF T = 0 THEN v1 ELSE v0]

\* With limited acceleration and a moving target or a curved shape the way is not prescribed, only its bounds: the change of speed
\* within the entity's limits, the speed within those and between start, present and target speed, the end at the target and in time.
Loose(sc, a) == sc.ent[sc.act[a].e].amax > 0 /\ (sc.act[a].tk # "abs" \/ sc.act[a].shape \in {"cubic", "sin"})
Bounded(sc, S, a, dt, ended, seen) ==
  LET A == sc.act[a]
      e == A.e
      E == sc.ent[e]
      v1 == Target(sc, S.v, a)
      v == S.v[e]
      lo == Min(v1, Min(v, S.from[a])) - Tol
      hi == Max(v1, Max(v, S.from[a])) + Tol
      up == IF dt = 0 THEN hi ELSE v + SMulDiv(E.amax, dt, 16) + Tol
      dn == IF dt = 0 THEN lo ELSE v - SMulDiv(E.dmax, dt, 16) - Tol
      fits == seen >= Max(lo, dn) /\ seen <= Min(hi, up) /\ Abs(seen) <= E.vmax + Tol
      nv == IF fits THEN seen ELSE IF v1 > v THEN Min(v1, Max(v, up)) ELSE Max(v1, Min(v, dn))
      p == S.p[a] + dt * FT
      late == A.tk = "abs" /\ p > S.T[a] + ByRate(2 * Abs(v1 - S.from[a]), Min(E.amax, E.dmax)) + 16 * FT
      done == ended /\ Near(nv, v1, Tol) /\ ~(A.tk # "abs" /\ A.cont)
  IN [S EXCEPT !.v[e] = nv, !.p[a] = p, !.run[a] = ~(done \/ late)]

\* one step of running action a; ends[a] says whether the code was seen to end it: used only when p and T are too close to call
Advance(sc, S, a, dt, ended) ==
  LET A  == sc.act[a]
      e  == A.e
      v1 == Target(sc, S.v, a)
      T  == IF A.tk # "abs" /\ A.dim = "rate" /\ A.shape # "step" /\ v1 # S.from[a] THEN ByRate(v1 - S.from[a], A.x) ELSE S.T[a]
      after == T > 0 /\ S.p[a] >= T
      p  == IF after THEN S.p[a] ELSE Min(S.p[a] + dt * FT, T)
      close == ~(A.dim = "time") /\ A.shape # "step" /\ S.p[a] + dt * FT # T /\ Near(S.p[a] + dt * FT, T, 2)
      done == IF close THEN ended ELSE p >= T
      nv == IF after THEN (IF dt = 0 THEN S.v[e] ELSE v1) ELSE Shape(A.shape, S.from[a], v1, IF done THEN T ELSE p, T)
      hit == S.hit[a] \/ (done /\ nv = v1)
  IN [S EXCEPT !.v[e] = nv, !.p[a] = IF done THEN T ELSE p, !.T[a] = T, !.hit[a] = hit,
               !.run[a] = ~(hit /\ ~(A.tk # "abs" /\ A.cont))]

RECURSIVE AdvanceAll(_, _, _, _, _, _)
AdvanceAll(sc, S, a, dt, obRun, obV) ==
  IF a > Len(sc.act) THEN S
  ELSE AdvanceAll(sc, IF ~S.run[a] THEN S ELSE IF Loose(sc, a) THEN Bounded(sc, S, a, dt, obRun[a] = 0, obV[sc.act[a].e]) ELSE Advance(sc, S, a, dt, obRun[a] = 0), a + 1, dt, obRun, obV)

\* distance covered in dt sixteenths of a second
Dist(v, dt) == SMulDiv(v, dt, 16)

\* The frame: what the code does is compared with v, s, odo (within Tol) and with which actions are running (exactly)
Frame(sc, S, g, dt, obRun, obV) ==
  LET A == IF g # 0 /\ ~S.run[g] /\ S.n[g] < sc.act[g].max THEN Begin(sc, S, g) ELSE S
      B == AdvanceAll(sc, A, 1, dt, obRun, obV)
  IN [B EXCEPT !.s = [e \in DOMAIN @ |-> @[e] + sc.ent[e].dir * Dist(B.v[e], dt)],
               !.odo = [e \in DOMAIN @ |-> @[e] + Abs(Dist(B.v[e], dt))]]

Adopt(ob, x) == IF Near(ob, x, Tol) THEN ob ELSE x

Step(sc, S, op, ob) ==
  LET ne == Len(sc.ent)  na == Len(sc.act)
      good == Len(ob) = 3 * ne + na
      obRun == IF good THEN SubSeq(ob, 3 * ne + 1, 3 * ne + na) ELSE [a \in 1..na |-> 0]
      B == IF op.o = "init" THEN S ELSE Frame(sc, S, op.g, op.dt, obRun, IF good THEN SubSeq(ob, 1, ne) ELSE S.v)
      C == IF ~good THEN B ELSE
           [B EXCEPT !.v = [e \in 1..ne |-> Adopt(ob[e], @[e])], !.s = [e \in 1..ne |-> Adopt(ob[ne + e], @[e])], !.odo = [e \in 1..ne |-> Adopt(ob[2 * ne + e], @[e])]]
  IN [s |-> C, r |-> C.v \o C.s \o C.odo \o [a \in 1..na |-> IF C.run[a] THEN 1 ELSE 0]]
=============================================================================
