------------------------------ MODULE LateralMC ------------------------------
EXTENDS Lateral, TLC

CONSTANT Depth

M == 4096
E(s, lane, off, v, d) == [s0 |-> s * M, lane |-> lane, off |-> off, v0 |-> v * M, dir |-> d]
C(e, sh, dim, x, tk, lane, ref, off) == [k |-> "change", e |-> e, shape |-> sh, dim |-> dim, x |-> x, tk |-> tk, lane |-> lane, ref |-> ref, off |-> off]
O(e, sh, acc, tk, tv, ref) == [k |-> "offset", e |-> e, shape |-> sh, acc |-> acc, tk |-> tk, tv |-> tv, ref |-> ref]
Sc == [w |-> [l |-> <<14 * 1024, 16 * 1024>>, r |-> <<16 * 1024, 12 * 1024>>],
       ent |-> <<E(100, -1, 0, 10, 1), E(200, 1, 2048, 2, -1)>>,
       act |-> <<[k |-> "speed", e |-> 1, tv |-> 0], [k |-> "speed", e |-> 2, tv |-> 16 * M],
                 C(1, "linear", "time", 4 * 4096, "abs", -2, 1, 0), C(1, "cubic", "rate", 2 * M, "abs", 1, 1, 2048), C(1, "sin", "dist", 10 * M, "rel", -1, 2, 0),
                 O(1, "cubic", 24, "abs", -2048, 1), C(2, "sin", "time", 8 * 4096, "rel", 1, 1, 0), O(2, "linear", 64, "rel", 4096, 1), C(2, "step", "time", 0, "abs", 2, 1, 0)>>]

VARIABLES S, pre, g, dt, d
vars == <<S, pre, g, dt, d>>
Run(s, gg, t) == Frame(Sc, s, gg, t, [a \in 1..Len(Sc.act) |-> 0])
Init == \E a \in 0..Len(Sc.act), b \in {1, 4} : d = 1 /\ pre = Start(Sc) /\ g = a /\ dt = b /\ S = Run(Start(Sc), a, b)
Next == /\ d < Depth
        /\ \E gg \in 0..Len(Sc.act), t \in {1, 4} :
             (IF gg = 0 THEN TRUE ELSE Exists(Sc, S, gg)) /\ S' = Run(S, gg, t) /\ pre' = S /\ g' = gg /\ dt' = t
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Ent == 1..Len(Sc.ent)
Acts == 1..Len(Sc.act)
Lat(a) == Sc.act[a].k # "speed"
Acting(e) == {a \in Acts : Sc.act[a].e = e /\ Lat(a) /\ (pre.run[a] \/ g = a)}
\* never further along the road than speed allows, in the driving direction; exactly as far when only the offset in the lane changes
DrivenDistance == \A e \in Ent : LET ds == (S.s[e] - pre.s[e]) * Sc.ent[e].dir * Sign(S.v[e])  L == Len12(S.v[e], dt) IN
                    /\ 0 <= ds /\ ds <= L
                    /\ (\A a \in Acting(e) : Sc.act[a].k # "change") => ds = L
\* lateral position and heading change only while a lateral action acts on the entity
OnlyByAction == \A e \in Ent : Acting(e) = {} => S.t[e] = pre.t[e] /\ S.h[e] = pre.h[e] /\ S.lane[e] = pre.lane[e]
\* an action that ended by itself left the entity exactly at its goal, aligned with the road, and a lane change in the lane of the goal
Reached == \A a \in Acts : Lat(a) /\ (pre.run[a] \/ (g = a /\ S.n[a] > pre.n[a])) /\ ~S.run[a] /\ ~(g # 0 /\ g # a /\ Lat(g) /\ Sc.act[g].e = Sc.act[a].e /\ ~pre.run[g])
              => LET e == Sc.act[a].e IN S.t[e] = S.to[a] /\ S.h[e] = 0 /\ (Sc.act[a].k = "change" => Dist(Sc, S.lane[e], S.t[e]) <= 0)
\* no overshoot
Between == \A a \in Acts : S.run[a] => LET t == S.t[Sc.act[a].e] IN Min(S.from[a], S.to[a]) <= t + 1 /\ t <= Max(S.from[a], S.to[a]) + 1
OneEach == \A a, b \in Acts : a # b /\ S.run[a] /\ S.run[b] => Sc.act[a].e # Sc.act[b].e
\* going k lanes one way and k lanes back leads to the same lane, and the centre lane is never a target
BackAgain == \A l \in {-3, -2, -1, 1, 2, 3}, k \in -2..2 : Beside(l, k) # 0 /\ Beside(Beside(l, k), -k) = l
\* what one entity does leaves the other one alone
Independent == \A e \in Ent : (g = 0 \/ Sc.act[g].e # e) => LET N == Run(pre, 0, dt) IN S.t[e] = N.t[e] /\ S.s[e] = N.s[e] /\ S.v[e] = N.v[e]
=============================================================================
