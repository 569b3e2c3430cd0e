----------------------------- MODULE ControlMC -----------------------------
EXTENDS Control, TLC

CONSTANTS Depth, Minor

M == 4096
As(c, lon, lat) == [k |-> "assign", e |-> 1, c |-> c, m |-> <<lon, lat>>]
Ac(c, lon, lat) == [k |-> "activate", e |-> 1, c |-> c, m |-> <<lon, lat>>]
Sc == [minor |-> Minor, ent |-> <<[x0 |-> 100 * M, y0 |-> -2 * M, v0 |-> 8 * M], [x0 |-> 100 * M, y0 |-> -6 * M, v0 |-> 4 * M]>>,
       ctrl |-> <<[e |-> 1, mode |-> "ovr", own |-> 1], [e |-> 1, mode |-> "add", own |-> 0], [e |-> 1, mode |-> "ovr", own |-> 0], [e |-> 2, mode |-> "ovr", own |-> 1]>>,
       act |-> <<[k |-> "speed", e |-> 1, tv |-> 16 * M, T |-> 8], [k |-> "speed", e |-> 1, tv |-> 2 * M, T |-> 0], [k |-> "side", e |-> 1, y |-> -3 * M], [k |-> "side", e |-> 1, y |-> -M],
                 As(0, 0, 0), As(2, 2, 0), As(2, 0, 2), As(3, 2, 2), As(3, 0, 0),
                 Ac(0, 2, 2), Ac(0, 1, 1), Ac(1, 2, 0), Ac(1, 0, 2), Ac(1, 1, 2), Ac(3, 2, 1), Ac(2, 2, 2),
                 [k |-> "activate", e |-> 2, c |-> 0, m |-> <<2, 2>>]>>]

VARIABLES S, pre, op, d
vars == <<S, pre, op, d>>
Ops == {[o |-> "step", g |-> g, dt |-> 4, rep |-> 0, rx |-> 0, ry |-> 0] : g \in 0..Len(Sc.act)}
         \cup {[o |-> "step", g |-> 0, dt |-> 4, rep |-> e, rx |-> 5 * M, ry |-> -2 * M] : e \in {1, 2}}
\* positions are reported of entities that are driven from outside
Fit(s, o) == IF o.rep = 0 THEN TRUE ELSE Taken(Sc, s, o.rep, 1) /\ Taken(Sc, s, o.rep, 2)
Init == d = 0 /\ S = Start(Sc) /\ pre = Start(Sc) /\ op = [o |-> "init", g |-> 0, dt |-> 0, rep |-> 0, rx |-> 0, ry |-> 0]
Next == /\ d < Depth
        /\ \E o \in Ops : Fit(S, o) /\ S' = Frame(Sc, S, o, S.v) /\ pre' = S /\ op' = o
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars
View == <<[S EXCEPT !.x = [e \in DOMAIN @ |-> @[e] - pre.x[e]]], op, d>>

Ent == 1..Len(Sc.ent)
\* at most one controller is active per entity and domain, and only assigned ones are
OneEach == \A e \in Ent, t \in Dom : Cardinality(Active(S, e, t)) <= 1
OnlyAssigned == \A c \in 1..Len(Sc.ctrl), t \in Dom : S.on[c][t] => c \in Has(S, Sc.ctrl[c].e)
NoneTwice == \A e \in Ent : Cardinality(Has(S, e)) = Len(S.has[e])
Stepped == op.o = "step"
\* where a controller has taken over, the entity moves as reported, else not
NotMoved == Stepped => \A e \in Ent : Taken(Sc, S, e, 1) => S.x[e] = (pre.x[e] + (IF op.rep = e THEN op.rx ELSE 0))
NotShifted == Stepped => \A e \in Ent : Taken(Sc, S, e, 2) /\ op.rep # e => S.y[e] = pre.y[e]
\* where none has, it moves by its speed, and actions have their effect
Driven == Stepped => \A e \in Ent : ~Taken(Sc, S, e, 1) /\ op.rep # e => S.x[e] - pre.x[e] = (S.v[e] * op.dt) \div 16
Effective == Stepped /\ op.g # 0 => LET A == Sc.act[op.g] IN
               /\ A.k = "speed" /\ A.T = 0 /\ ~Taken(Sc, S, A.e, 1) => S.v[A.e] = A.tv
               /\ A.k = "side" /\ ~Taken(Sc, S, A.e, 2) => S.y[A.e] = A.y
\* only what is mentioned is switched
Asked == Stepped /\ op.g # 0 /\ Sc.act[op.g].k \in {"assign", "activate"} /\ S.on # pre.on => LET A == Sc.act[op.g] IN
           /\ \A c \in 1..Len(Sc.ctrl) : Sc.ctrl[c].e # A.e => S.on[c] = pre.on[c]
           /\ \A t \in Dom : A.m[t] = 2 => Active(S, A.e, t) # {}
           /\ \A c \in 1..Len(Sc.ctrl), t \in Dom : S.on[c][t] /\ ~pre.on[c][t] => A.m[t] = 2
           /\ (Minor >= 3 /\ ~(A.k = "assign" /\ A.c = 0)) => \A t \in Dom : A.m[t] = 0 => Active(S, A.e, t) = Active(pre, A.e, t)
Unasked == Stepped /\ (op.g = 0 \/ Sc.act[op.g].k \notin {"assign", "activate"}) => S.on = pre.on /\ S.has = pre.has
NoRampTaken == \A a \in 1..Len(Sc.act) : S.run[a] => ~Taken(Sc, S, Sc.act[a].e, 1)
=============================================================================
