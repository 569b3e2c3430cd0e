------------------------------ MODULE Domains -------------------------------
(* Which private actions run: all kinds of them, for several entities, from  *)
(* the initialisation and from events.  sc.act[a]: entity e, domains dom (a  *)
(* sequence of "long", "lat"), whether it goes on until ended (on), may end  *)
(* by itself (own: adopted) and the event ev it belongs to (0: the initialisation).  sc.nev: events, in the   *)
(* order in which they are looked at.  op.go: the events triggered.          *)
EXTENDS Naturals, Sequences, FiniteSets

Acts(sc) == DOMAIN sc.act
Dom(sc, a) == {sc.act[a].dom[i] : i \in DOMAIN sc.act[a].dom}
Start(sc) == [run |-> [a \in Acts(sc) |-> sc.act[a].ev = 0]]
Rivals(sc, a) == {b \in Acts(sc) : b # a /\ sc.act[b].e = sc.act[a].e /\ Dom(sc, a) \cap Dom(sc, b) # {}}

RECURSIVE Launch(_, _, _, _)
Launch(sc, run, ev, a) ==      \* the actions of event ev from number a on
  IF a > Len(sc.act) THEN run
  ELSE Launch(sc, IF sc.act[a].ev # ev THEN run ELSE LET R == Rivals(sc, a) IN [b \in Acts(sc) |-> IF b = a THEN TRUE ELSE run[b] /\ b \notin R], ev, a + 1)
Busy(sc, run, ev) == \E a \in Acts(sc) : sc.act[a].ev = ev /\ run[a]
RECURSIVE Events(_, _, _, _)
Events(sc, run, op, ev) ==
  IF ev > sc.nev THEN run
  ELSE Events(sc, IF ev \in {op.go[i] : i \in DOMAIN op.go} /\ ~Busy(sc, run, ev) THEN Launch(sc, run, ev, 1) ELSE run, op, ev + 1)
\* what is done at once is over with the frame in which it starts
Frame(sc, S, op, ob) == LET r == Events(sc, S.run, op, 1) IN [run |-> [a \in Acts(sc) |-> r[a] /\ sc.act[a].on /\ (sc.act[a].own => a \in DOMAIN ob /\ ob[a] = 1)]]

Step(sc, S, op, ob) ==
  LET T == IF op.o = "init" THEN S ELSE Frame(sc, S, op, ob)
  IN [s |-> T, r |-> [a \in Acts(sc) |-> IF T.run[a] THEN 1 ELSE 0]]
=============================================================================
