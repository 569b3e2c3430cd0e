------------------------------ MODULE MotionMC ------------------------------
EXTENDS Motion, TLC

CONSTANT Depth

M == 4096
E(s, v, d, m, a) == [s0 |-> s * M, v0 |-> v * M, dir |-> d, vmax |-> m * M, amax |-> a * M, dmax |-> a * M]
A(e, sh, dim, x, tk, tv, ref, cont) == [e |-> e, shape |-> sh, dim |-> dim, x |-> x, tk |-> tk, tv |-> tv, ref |-> ref, cont |-> cont, max |-> 2]
Sc == [ent |-> <<E(100, 10, 1, 30, 0), E(200, 4, -1, 50, 8)>>,
       act |-> <<A(1, "linear", "time", 16, "abs", 20 * M, 1, FALSE), A(1, "linear", "rate", 4 * M, "abs", -6 * M, 1, FALSE), A(1, "cubic", "time", 8, "abs", 40 * M, 1, FALSE),
                 A(2, "linear", "dist", 8 * M, "abs", 12 * M, 1, FALSE), A(2, "linear", "time", 8, "delta", 2 * M, 1, TRUE), A(2, "step", "time", 0, "factor", 8, 1, FALSE), A(1, "sin", "time", 8, "abs", 2 * M, 1, FALSE)>>]

VARIABLES S, pre, g, dt, d
vars == <<S, pre, g, dt, d>>
Init == S = Start(Sc) /\ pre = Start(Sc) /\ g = 0 /\ dt = 0 /\ d = 0
Next == /\ d < Depth
        /\ \E gg \in 0..Len(Sc.act), t \in {0, 1, 4}, w \in {-M, 0, M \div 2} :     \* w: where the way is left open, what is seen
             S' = Frame(Sc, S, gg, t, [a \in 1..Len(Sc.act) |-> 0], [e \in 1..Len(Sc.ent) |-> S.v[e] + w]) /\ pre' = S /\ g' = gg /\ dt' = t
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Ent == 1..Len(Sc.ent)
Acts == 1..Len(Sc.act)
\* displacement is speed times time, in the driving direction
Kinematics == d > 0 => \A e \in Ent : S.s[e] - pre.s[e] = Sc.ent[e].dir * Dist(S.v[e], dt) /\ S.odo[e] - pre.odo[e] = Abs(Dist(S.v[e], dt))
\* speed changes only while an action acts on it
OnlyByAction == \A e \in Ent : S.v[e] # pre.v[e] => \E a \in Acts : Sc.act[a].e = e /\ (pre.run[a] \/ g = a)
\* within the entity's limits
Limits == \A e \in Ent : Abs(S.v[e]) <= Sc.ent[e].vmax
AccLimit == \A e \in Ent : Sc.ent[e].amax > 0 /\ dt > 0 /\ (\A a \in Acts : Sc.act[a].e = e /\ (pre.run[a] \/ g = a) => Sc.act[a].shape # "step")
              => Abs(S.v[e] - pre.v[e]) <= (Sc.ent[e].amax * dt) \div 16 + Tol + 2
\* an action that ended by itself left the entity at its target
Reached == \A a \in Acts : (pre.run[a] \/ g = a) /\ ~S.run[a] /\ S.n[a] > 0 /\ (\A b \in Acts : b # a /\ Sc.act[b].e = Sc.act[a].e => ~S.run[b] /\ g # b) /\ Sc.act[a].tk = "abs"
              => S.v[Sc.act[a].e] = Target(Sc, S.v, a) \/ (g = a /\ ~pre.run[a] /\ pre.n[a] = S.n[a])
\* no overshoot: between where it started and the target
Between == \A a \in Acts : S.run[a] /\ Sc.act[a].tk = "abs" /\ ~Loose(Sc, a) =>
              LET v == S.v[Sc.act[a].e]  t == Target(Sc, S.v, a) IN Min(S.from[a], t) <= v /\ v <= Max(S.from[a], t)
OneEach == \A a, b \in Acts : a # b /\ S.run[a] /\ S.run[b] => Sc.act[a].e # Sc.act[b].e
=============================================================================
