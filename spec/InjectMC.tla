------------------------------ MODULE InjectMC ------------------------------
EXTENDS Inject, TLC

CONSTANT Depth

M == 4096
E(s, lane, off, v, d) == [s0 |-> s * M, lane |-> lane, off |-> off, v0 |-> v * M, dir |-> d, vmax |-> 1000 * M, amax |-> 0, dmax |-> 0]
C(e, sh, dim, x, tk, lane) == [k |-> "change", e |-> e, shape |-> sh, dim |-> dim, x |-> x, tk |-> tk, lane |-> lane, ref |-> e, off |-> 0]
O(e, sh, acc, tv) == [k |-> "offset", e |-> e, shape |-> sh, acc |-> acc, tk |-> "abs", tv |-> tv, ref |-> e]
V(e, sh, dim, x, tv) == [k |-> "speed", e |-> e, shape |-> sh, dim |-> dim, x |-> x, tk |-> "abs", tv |-> tv, ref |-> e, cont |-> FALSE, max |-> 99]
Sc == [w |-> [l |-> <<14 * 1024, 16 * 1024>>, r |-> <<16 * 1024, 12 * 1024>>],
       ent |-> <<E(100, -1, 0, 10, 1), E(200, 1, 2048, 2, -1)>>,
       act |-> <<V(1, "linear", "time", 8, 20 * M), V(1, "step", "time", 0, 4 * M), V(2, "linear", "rate", 2 * M, 5 * M),
                 C(1, "linear", "time", 4 * 4096, "abs", -2), C(1, "cubic", "dist", 10 * M, "abs", 1), O(2, "sin", 24, -2048), O(2, "step", 24, 2048)>>]
Acts == 1..Len(Sc.act)
Ent == 1..Len(Sc.ent)

VARIABLES S, pre, op, d
vars == <<S, pre, op, d>>
None == [a \in Acts |-> 0]
Do(s, o) == IF o.o = "inj" THEN Inject(Sc, s, o.a) ELSE Frame(Sc, s, o.dt, None, s.m.v)
Ops == [o : {"inj"}, a : Acts, dt : {0}] \cup [o : {"step"}, a : {0}, dt : {0, 2, 8}]
Init == d = 0 /\ S = Start(Sc) /\ pre = Start(Sc) /\ op = [o |-> "none", a |-> 0, dt |-> 0]
Next == d < Depth /\ d' = d + 1 /\ \E o \in Ops : S' = Do(S, o) /\ op' = o /\ pre' = S
Spec == Init /\ [][Next]_vars

\* at most one action per kind and entity is ongoing, and each of them once
OneOfAKind == \A i, j \in 1..Len(S.q) : i # j => ~Same(Sc, S.q[i], S.q[j])
\* what the application is told is true: ongoing are those that wait for their first frame or run
ToldTrue == /\ \A k \in {"speed", "change", "offset"} : Ongoing(Sc, S, k) = Bit(\E a \in Acts : Kind(Sc, a) = k /\ Running(Sc, S, a))
            /\ Ongoing(Sc, S, "any") = Bit(\E a \in Acts : Running(Sc, S, a))
\* an injection by itself moves nothing, and entities without injected actions keep speed and lateral position
Idle(s, e, ks) == \A n \in 1..Len(s.q) : Sc.act[s.q[n]].e # e \/ Kind(Sc, s.q[n]) \notin ks
OnlyTheirs == /\ op.o = "inj" => S.m.v = pre.m.v /\ S.l.t = pre.l.t /\ S.l.s = pre.l.s
              /\ \A e \in Ent : /\ Idle(pre, e, {"speed"}) => S.m.v[e] = pre.m.v[e]
                                /\ Idle(pre, e, {"change", "offset"}) => S.l.t[e] = pre.l.t[e] /\ S.l.lane[e] = pre.l.lane[e]
\* an action that ended by itself left the entity at its target
Ends == op.o = "step" => \A a \in Acts : Running(Sc, pre, a) /\ ~Running(Sc, S, a) =>
          LET e == Sc.act[a].e IN IF Kind(Sc, a) = "speed" THEN S.m.v[e] = Sc.act[a].tv ELSE S.l.t[e] = S.l.to[a] /\ S.l.h[e] = 0
\* apart from its first frame an injected speed action does what the same action of a scenario does
SameAsScenario == op.o = "step" => \A a \in Acts : Kind(Sc, a) = "speed" /\ pre.m.run[a] => S.m.v[Sc.act[a].e] = Mo!Frame(Sc, pre.m, 0, op.dt, None, pre.m.v).v[Sc.act[a].e]
=============================================================================
