------------------------------ MODULE Session ------------------------------
(* Life of the library: scenarios are loaded, run, closed, loaded again - in one process, in any order.
   A run shows, frame by frame, what the same scenario with the same inputs shows in a process of its own;
   without a run, and for objects that are not there, every call is refused.
   A digest stands for everything that is visible in a frame. *)
EXTENDS Integers, Sequences, FiniteSets

Inert == [on |-> FALSE, s |-> 0, k |-> 0, memo |-> << >>]
Start(sc) == Inert
NoRun == -1
\* what a process of its own showed: result of loading, then one digest per frame
Known(S, s) == S.memo[s]
Loads(S, s) == Known(S, s)[1] = 0
Frame(S, s, k) == Known(S, s)[1 + k]
Frames(S, s) == Len(Known(S, s)) - 1
\* answers to the calls of a fixed list: without a run (first list), with a run but for an object that does not exist (second list)
Refused(sc, which) == IF which = 1 THEN sc.norun ELSE sc.noobj

Step(sc, S, op, ob) ==
  CASE op.o = "ref" -> [s |-> [S EXCEPT !.memo = Append(@, ob)], r |-> ob]
    [] op.o = "init" ->
         IF Loads(S, op.s) THEN [s |-> [S EXCEPT !.on = TRUE, !.s = op.s, !.k = 1], r |-> <<0, Frame(S, op.s, 1)>>]
         ELSE [s |-> [S EXCEPT !.on = FALSE], r |-> <<-1>>]
    [] op.o = "step" ->
         IF S.on THEN [s |-> [S EXCEPT !.k = @ + 1], r |-> <<Frame(S, S.s, S.k + 1)>>]
         ELSE [s |-> S, r |-> <<NoRun>>]
    [] op.o = "close" -> [s |-> [S EXCEPT !.on = FALSE], r |-> << >>]
    [] op.o = "ask" -> [s |-> S, r |-> Refused(sc, IF S.on THEN 2 ELSE 1)]
    [] OTHER -> [s |-> S, r |-> << >>]                    \* "other": calls that concern no run
=============================================================================
