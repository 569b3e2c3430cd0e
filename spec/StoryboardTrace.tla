--------------------------- MODULE StoryboardTrace ---------------------------
(* Recorded runs of esmini are behaviours of Storyboard: every frame's       *)
(* notifications, variable values, time and quit flag are exactly the ones   *)
(* the specification produces from the same inputs.                          *)
EXTENDS Storyboard, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES i, k, S, ok
vars == <<i, k, S, ok>>

Obs(n, j) == Traces[n].obs[j]
Inp(n, j) == Traces[n].inp[j]

\* external writes of variables: a sequence of <<variable, value>>
RECURSIVE Apply(_, _, _)
Apply(vs, w, j) == IF j > Len(w) THEN vs ELSE Apply([vs EXCEPT ![w[j][1]] = w[j][2]], w, j + 1)

Expect(n, j, st) ==
  LET st1 == [st EXCEPT !.vars = Apply(@, Inp(n, j).w, 1), !.log = << >>]
  IN Frame(Traces[n].sc, st1, Inp(n, j).dt, j = 1)

Quit(st) == IF st.st[1] = COMPLETE THEN 1 ELSE 0

Agrees(n, j, e) ==
  /\ j <= Len(Traces[n].obs)
  /\ e.log = Obs(n, j).log
  /\ e.vars = Obs(n, j).vars
  /\ e.time = Obs(n, j).t
  /\ Quit(e) = Obs(n, j).quit

Init == i \in 1..Len(Traces) /\ k = 0 /\ S = InitS(Traces[i].sc) /\ ok = TRUE

Next == /\ ok
        /\ k < Len(Traces[i].inp)
        /\ \E e \in {Expect(i, k + 1, S)} : LET a == Agrees(i, k + 1, e) IN
              /\ S' = e
              /\ ok' = (a \/ ~PrintT("VF " \o ToJson(<<i, k + 1, e.log, e.vars, e.time, Quit(e)>>)))
        /\ k' = k + 1
        /\ i' = i

Spec == Init /\ [][Next]_vars
Conforms == ok
View == <<i, k, ok>>
=============================================================================
