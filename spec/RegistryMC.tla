----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, TLC

CONSTANT Depth

Sc == [v0 |-> <<10 * M, 0>>]
Same(id, f, w, tol) == w
Ops(S) ==
  LET ids == 0..Len(S.ob) IN       \* one more than there is
  {[o |-> "add", type |-> t, name |-> n] : t \in {1, 3}, n \in {0, 3}} \cup {[o |-> "del", id |-> i] : i \in ids \ {0, 1}}
  \cup {[o |-> "pos", id |-> i, x |-> 1001 * M, y |-> 3 * M, h |-> h] : i \in ids, h \in {1, 2}}
  \cup {[o |-> "speed", id |-> i, v |-> 4 * M] : i \in ids} \cup {[o |-> "vel", id |-> i, vx |-> M, vy |-> 2 * M, vz |-> 0] : i \in ids}
  \cup {[o |-> "acc", id |-> i, ax |-> M, ay |-> 0] : i \in ids} \cup {[o |-> "latlane", id |-> i, lane |-> 2, off |-> 0] : i \in ids}
  \cup {[o |-> "cb", id |-> i, tag |-> 7] : i \in {j \in ids : Exists(S, j)}}
  \cup {[o |-> "step", dt |-> d, g |-> g] : d \in {0, 4}, g \in 0..2}

VARIABLES S, pre, op, d
vars == <<S, pre, op, d>>
Init == d = 1 /\ pre = Start(Sc) /\ \E o \in Ops(Start(Sc)) : op = o /\ S = Do(Start(Sc), o, Same)
Next == d < Depth /\ d' = d + 1 /\ pre' = S /\ \E o \in Ops(S) : op' = o /\ S' = Do(S, o, Same)
Spec == Init /\ [][Next]_vars

Ids(Q) == {i \in 0..(Len(Q.ob) - 1) : Q.ob[i + 1].ex}
Listed(Q) == {Q.list[k] : k \in 1..Len(Q.list)}
\* an id is never given to another object, and an object keeps its name and type
IdsStable == /\ Len(S.ob) = Len(pre.ob) + (IF op.o = "add" THEN 1 ELSE 0)
             /\ \A i \in 1..Len(pre.ob) : (S.ob[i].ex => pre.ob[i].ex) /\ S.ob[i].name = pre.ob[i].name /\ S.ob[i].type = pre.ob[i].type
             /\ (op.o = "add" => S.res = Len(pre.ob))
\* every object is listed once, unless the scenario removed it; deleted ones are gone for every call
ListSound == /\ Cardinality(Listed(S)) = Len(S.list) /\ Listed(S) \subseteq Ids(S) /\ Ids(S) \ Listed(S) \subseteq {1}
             /\ (op.o \notin {"add", "step", "cb", "init"} => (S.res = 0) = Exists(pre, op.id))
             /\ (op.o = "del" /\ S.res = 0 => ~Exists(S, op.id))
             /\ \A n \in {1, 2, 3} : LET i == IdByName(S, n) IN IF i = -1 THEN \A j \in Listed(S) : S.ob[j + 1].name # n ELSE i \in Listed(S) /\ S.ob[i + 1].name = n
\* what is reported is what is shown, at once
ReportShows == op.o \in {"pos", "speed", "vel", "acc", "latlane"} /\ S.res = 0 =>
  LET o == S.ob[op.id + 1] IN
  CASE op.o = "pos" -> o.x = op.x /\ o.y = op.y /\ o.h = op.h [] op.o = "speed" -> o.v = op.v [] op.o = "vel" -> o.vx = op.vx /\ o.vy = op.vy [] op.o = "acc" -> o.ax = op.ax [] OTHER -> LaneOf(o.y) = op.lane
\* a call concerns the named object only
OthersUntouched == op.o \notin {"step", "init"} => \A i \in 1..Len(pre.ob) : (op.o \in {"add", "cb"} \/ i # op.id + 1) => S.ob[i] = pre.ob[i]
OdometerGrows == \A i \in 1..Len(pre.ob) : S.ob[i].odo >= pre.ob[i].odo
\* a frame moves only objects under default control that are in the scenario and were not given a position in between
NobodyElseMoves == op.o = "step" => \A i \in 1..Len(pre.ob) :
   (pre.ob[i].ext \/ i - 1 \notin Listed(S) \/ ("long" \in pre.ob[i].dirty /\ op.g # 2)) => S.ob[i].x = pre.ob[i].x /\ S.ob[i].y = pre.ob[i].y
CalledOnce == IF op.o = "step" THEN Len(S.called) = 4 * Cardinality({k \in 1..Len(S.cb) : Exists(S, S.cb[k].id)}) ELSE S.called = << >>
\* velocity and speed after a frame: the reported ones, otherwise those of the motion
DerivedFollowsMotion == op.o = "step" /\ op.dt > 0 => \A i \in 1..Len(pre.ob) :
   LET p == pre.ob[i]  o == S.ob[i] IN
   i - 1 \in Listed(S) =>
   /\ ("vel" \in p.dirty => o.vx = p.vx /\ o.vy = p.vy)
   /\ ("speed" \in p.dirty => o.v = p.v)
   /\ (p.dirty \cap {"vel", "tele"} = {} /\ op.g # 2 => o.vx = Div(o.x - p.ox, op.dt) /\ o.vy = Div(o.y - p.oy, op.dt))
=============================================================================
