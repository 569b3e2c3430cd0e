------------------------------- MODULE Lights -------------------------------
(* What light, override, visibility and traffic signal actions make of the   *)
(* lights, pedals and visibility of vehicles and of the lamps of signals.    *)
(* Times in 1/16 s (the frame time sc.dt is the same throughout a run),      *)
(* intensities in cd / 64, other values in 2^-12.                            *)
(* Lights: 0 daytime running, 1 low beam, 2 high beam, 3 fog lights, 4 front *)
(* and 5 rear ones, 6 brake, 7 warning, 8 left and 9 right indicator,        *)
(* 10 reversing, 11 tail, 12 license plate, 13 special purpose.              *)
(* Modes: 0 off, 1 on, 2 flashing, 3 unknown.                                *)
(* sc.act[a] belongs to event ev (0: initialisation) and entity e:           *)
(*  [k |-> "light", ty, md, lum, T, on, off]: light ty to mode md, intensity *)
(*     lum, within T; on and off: durations of flashing                      *)
(*  [k |-> "over", o, act, val, rate, tq, num, vt]: override of kind o = 1   *)
(*     throttle, 2 brake, 3 clutch, 4 parking brake, 5 steering wheel, 6 gear*)
(*  [k |-> "vis", mask]                                                      *)
(*  [k |-> "sig", sig, st]: lamps of signal sig to the modes st              *)
(* sc.sig[s]: number of lamps; sc.watch[w] = [sig, st]: events that start    *)
(* whenever the lamps of sig are set to st.                                  *)
EXTENDS Arith, Sequences, FiniteSets

Lt == 0..13
Aff(t) == IF t = 3 THEN {3, 4, 5} ELSE IF t = 7 THEN {7, 8, 9} ELSE {t}
\* actions on these lights exclude each other
Clash(t, u) == \/ t = u
               \/ {t, u} \subseteq {7, 8, 9}
               \/ t = 3 /\ u \in {4, 5}
               \/ u = 3 /\ t \in {4, 5}
Full == 12000 * 64
Pi2 == 25736

NoOver == [act |-> 0, val |-> 0, rate |-> -4096, tq |-> -4096, num |-> 0, vt |-> 0]
Start(sc) ==
  [mode |-> [e \in 1..sc.ne |-> [l \in Lt |-> 3]], lum |-> [e \in 1..sc.ne |-> [l \in Lt |-> 0]],
   run |-> [a \in 1..Len(sc.act) |-> FALSE], p |-> [a \in 1..Len(sc.act) |-> 0], from |-> [a \in 1..Len(sc.act) |-> [l \in Lt |-> 0]],
   lit |-> [a \in 1..Len(sc.act) |-> FALSE], ft |-> [a \in 1..Len(sc.act) |-> 0],
   over |-> [e \in 1..sc.ne |-> [o \in 1..6 |-> NoOver]], vis |-> [e \in 1..sc.ne |-> 255],
   lamp |-> [s \in 1..Len(sc.sig) |-> [i \in 1..sc.sig[s] |-> 2]], set |-> [s \in 1..Len(sc.sig) |-> FALSE]]

Clamp(x, lo, hi) == Max(lo, Min(hi, x))
Value(A) == CASE A.o = 5 -> Clamp(A.val, -Pi2, Pi2)
              [] A.o \in {2, 4} /\ A.vt = 1 -> Max(0, A.val)
              [] A.o = 6 -> 0
              [] OTHER -> Clamp(A.val, 0, 4096)

Begin(sc, S, a) ==
  LET A == sc.act[a] IN
  CASE A.k = "light" ->
         LET e == A.e  t == A.ty
             other == IF t = 8 THEN 9 ELSE 8
             S1 == [S EXCEPT !.run = [b \in DOMAIN @ |-> IF b = a THEN TRUE ELSE @[b] /\ ~(sc.act[b].k = "light" /\ sc.act[b].e = e /\ Clash(sc.act[b].ty, t))]]
             S2 == CASE t \in {4, 5} -> [S1 EXCEPT !.mode[e][3] = 3, !.lum[e][3] = 0]
                     [] t \in {8, 9} ->
                          LET R == [S1 EXCEPT !.mode[e][7] = 3, !.lum[e][7] = 0] IN
                          \* only one indicator at a time
                          IF R.mode[e][other] # 3 \/ R.lum[e][other] > 0 THEN [R EXCEPT !.mode[e][other] = 0, !.lum[e][other] = 0] ELSE R
                     [] OTHER -> S1
             S3 == IF A.md = 2 THEN [S2 EXCEPT !.lum[e] = [l \in Lt |-> IF l \in Aff(t) /\ S2.mode[e][l] = 1 THEN 0 ELSE @[l]]] ELSE S2
         IN [S3 EXCEPT !.p[a] = 0, !.from[a] = S3.lum[e], !.lit[a] = FALSE, !.ft[a] = A.off]
    [] A.k = "over" -> [S EXCEPT !.over[A.e][A.o] = [act |-> A.act, val |-> Value(A), rate |-> A.rate, tq |-> A.tq, num |-> A.num, vt |-> A.vt]]
    [] A.k = "vis" -> [S EXCEPT !.vis[A.e] = A.mask]
    [] A.k = "sig" -> [S EXCEPT !.lamp[A.sig] = A.st, !.set[A.sig] = TRUE]

Target(A) == IF A.md = 0 THEN 0 ELSE Clamp(A.lum * 64, 0, Full)
\* a light that is fading is lit until it is out
Mix(A, f, p) == LET x == f + SMulDiv(Target(A) - f, p, A.T) IN IF (f > 0 /\ p < A.T) \/ (Target(A) > 0 /\ p > 0) THEN Max(1, x) ELSE x
Go(sc, S, a) ==
  LET A == sc.act[a]  e == A.e
      all(x) == [l \in Lt |-> IF l \in Aff(A.ty) THEN x ELSE S.lum[e][l]]
      modes == [l \in Lt |-> IF l \in Aff(A.ty) THEN A.md ELSE S.mode[e][l]]
  IN IF A.md = 2 THEN
       LET on == ~S.lit[a] /\ S.ft[a] >= A.off  off == S.lit[a] /\ S.ft[a] >= A.on
           S1 == IF on THEN [S EXCEPT !.lum[e] = all(Target(A)), !.lit[a] = TRUE, !.ft[a] = 0]
                 ELSE IF off THEN [S EXCEPT !.lum[e] = all(0), !.lit[a] = FALSE, !.ft[a] = 0] ELSE S
       IN [S1 EXCEPT !.mode[e] = modes, !.ft[a] = @ + sc.dt]
     ELSE IF S.p[a] >= A.T THEN [S EXCEPT !.mode[e] = modes, !.lum[e] = all(Target(A)), !.run[a] = FALSE]
     ELSE [S EXCEPT !.lum[e] = [l \in Lt |-> IF l \in Aff(A.ty) THEN Mix(A, S.from[a][l], S.p[a]) ELSE @[l]], !.p[a] = @ + sc.dt]

RECURSIVE Begins(_, _, _, _), Goes(_, _, _)
Begins(sc, S, a, g) == IF a > Len(sc.act) THEN S ELSE Begins(sc, IF sc.act[a].ev = g THEN Begin(sc, S, a) ELSE S, a + 1, g)
Goes(sc, S, a) == IF a > Len(sc.act) THEN S ELSE Goes(sc, IF S.run[a] THEN Go(sc, S, a) ELSE S, a + 1)

Busy(sc, S, g) == \E a \in 1..Len(sc.act) : sc.act[a].ev = g /\ S.run[a]
\* a frame in which event g (0: none) is asked for; the initial frame runs the actions of the initialisation
Frame(sc, S, g) == Goes(sc, IF g # 0 /\ ~Busy(sc, S, g) THEN Begins(sc, S, 1, g) ELSE S, 1)
Initial(sc, S) == Goes(sc, Begins(sc, S, 1, 0), 1)

B(x) == IF x THEN 1 ELSE 0
Emits(S, e, l) == IF l \in {3, 7} THEN S.lum[e][l + 1] > 0 /\ S.lum[e][l + 2] > 0 ELSE S.lum[e][l] > 0
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN << >> ELSE Cat(f, n - 1) \o f[n]
Shown(sc, S) ==
  Cat([e \in 1..sc.ne |-> [i \in 1..14 |-> S.mode[e][i - 1]] \o [i \in 1..14 |-> B(Emits(S, e, i - 1))]
        \o Cat([o \in 1..6 |-> LET V == S.over[e][o] IN <<V.act, V.val, V.rate, V.tq, V.num, V.vt>>], 6) \o <<S.vis[e]>>], sc.ne)
  \o Cat([s \in 1..Len(sc.sig) |-> [i \in 1..sc.sig[s] |-> IF S.lamp[s][i] = 6 THEN 1 ELSE S.lamp[s][i]]], Len(sc.sig))   \* a broken lamp is shown as other

\* observed: everything shown, how often each watcher started in this frame (it sees what the frame before left), and which events run
Step(sc, S, op, ob) ==
  LET N == IF op.o = "init" THEN Initial(sc, S) ELSE Frame(sc, S, op.g)
      nev == sc.nev
  IN [s |-> N, r |-> Shown(sc, N) \o [w \in 1..Len(sc.watch) |-> B(op.o # "init" /\ S.set[sc.watch[w].sig] /\ S.lamp[sc.watch[w].sig] = sc.watch[w].st)]
                      \o [g \in 1..nev |-> B(Busy(sc, N, g))]]
=============================================================================
