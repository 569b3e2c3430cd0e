----------------------------- MODULE SessionMC -----------------------------
(* Two scenarios that load and one that does not; an implementation that keeps leftovers of earlier runs is compared
   with the specification's own claim: leftovers are there, but no frame depends on them. *)
EXTENDS Session, TLC
CONSTANT Depth
Sc == [norun |-> <<-1, 0>>, noobj |-> <<-1, 1>>]
Memo == << <<0, 11, 12, 13>>, <<0, 21, 22>>, <<-1>> >>
VARIABLES S, op, r, left, d                    \* left: everything that happened before the current run
vars == <<S, op, r, left, d>>
Ops == {[o |-> "init", s |-> s] : s \in 1..3} \cup {[o |-> "close"], [o |-> "ask"], [o |-> "other"]}
       \cup (IF ~S.on \/ S.k < Frames(S, S.s) THEN {[o |-> "step"]} ELSE {})
Do(o) == LET e == Step(Sc, S, o, << >>) IN
  S' = e.s /\ r' = e.r /\ op' = o /\ left' = IF o.o = "init" THEN Append(left, S.s) ELSE left
Init == S = [Inert EXCEPT !.memo = Memo] /\ op = [o |-> "close"] /\ r = << >> /\ left = << >> /\ d = 1
Next == d < Depth /\ d' = d + 1 /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
OwnFramesOnly == S.on => /\ Loads(S, S.s) /\ S.k \in 1..Frames(S, S.s)
                         /\ (op.o = "step" => r = <<Memo[S.s][1 + S.k]>>) /\ (op.o = "init" => r = <<0, Memo[S.s][2]>>)
BeginsAtTheBeginning == op.o = "init" /\ r[1] = 0 => S.k = 1 /\ S.s = op.s
OffMeansOff == ~S.on => (op.o = "step" => r = <<NoRun>>) /\ (op.o = "ask" => r = Sc.norun)
FailedLoadLeavesNothing == op.o = "init" /\ r = <<-1>> => ~S.on
AskingChangesNothing == [][op'.o \in {"ask", "other"} => S' = S]_vars
=============================================================================
