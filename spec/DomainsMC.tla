----------------------------- MODULE DomainsMC ------------------------------
EXTENDS Domains, TLC
CONSTANT Depth
A(e, dom, on, ev) == [e |-> e, dom |-> dom, on |-> on, own |-> FALSE, ev |-> ev]
G == <<"long">>
T == <<"lat">>
B == <<"long", "lat">>
Sc == [nev |-> 6, act |-> << A(1, G, TRUE, 0), A(1, T, TRUE, 0), A(2, B, TRUE, 0),
        A(1, G, TRUE, 1), A(1, T, TRUE, 1), A(1, B, TRUE, 2), A(2, T, TRUE, 3), A(2, << >>, FALSE, 3), A(1, B, FALSE, 4), A(2, G, TRUE, 5), A(2, G, FALSE, 5), A(1, T, TRUE, 6), A(1, B, TRUE, 6) >>]
VARIABLES S, pre, op, d
vars == <<S, pre, op, d>>
Ops == [o : {"step"}, go : {<<a, b>> : a, b \in 0..Sc.nev}]
Init == d = 0 /\ S = Start(Sc) /\ pre = Start(Sc) /\ op = [o |-> "init", go |-> << >>]
Next == d < Depth /\ d' = d + 1 /\ \E o \in Ops : S' = Frame(Sc, S, o, << >>) /\ op' = o /\ pre' = S
Spec == Init /\ [][Next]_vars
Gone(ev) == {op.go[i] : i \in DOMAIN op.go} \cap {ev} # {}
Begun(ev) == Gone(ev) /\ ~Busy(Sc, pre.run, ev)
\* one action per entity and domain
OneEach == \A a, b \in Acts(Sc) : a # b /\ S.run[a] /\ S.run[b] /\ Sc.act[a].e = Sc.act[b].e => Dom(Sc, a) \cap Dom(Sc, b) = {}
\* what runs goes on unless something of the same entity and domain was triggered
Undisturbed == \A a \in Acts(Sc) : pre.run[a] /\ ~S.run[a] => \E b \in Rivals(Sc, a) : Gone(Sc.act[b].ev)
\* of the entity and domain of an event that began, the last one runs
Started == \A a \in Acts(Sc) : Sc.act[a].ev # 0 /\ Begun(Sc.act[a].ev) /\ Sc.act[a].on => S.run[a] \/ \E b \in Rivals(Sc, a) : Gone(Sc.act[b].ev) /\ (Sc.act[b].ev > Sc.act[a].ev \/ b > a)
\* nothing outlives the start of a rival
EndedByRival == \A a, b \in Acts(Sc) : pre.run[a] /\ b \in Rivals(Sc, a) /\ Sc.act[b].ev # 0 /\ Begun(Sc.act[b].ev) /\ (Sc.act[a].ev = 0) => ~S.run[a]
=============================================================================
