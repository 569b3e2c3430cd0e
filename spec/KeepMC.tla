------------------------------- MODULE KeepMC -------------------------------
EXTENDS Keep, TLC

CONSTANT Depth

M == 4096
D(e, r, x, gap, free, side, cont, amax, jup) ==
  [k |-> "dist", e |-> e, ref |-> r, x |-> x, gap |-> gap, free |-> free, side |-> side, cont |-> cont, cup |-> 1, cdn |-> 2, amax |-> amax, dmax |-> 4 * amax, jup |-> jup, jdn |-> jup, vmax |-> 15 * M]
P(e, r, p, amax, dmax) == [k |-> "profile", e |-> e, ref |-> r, p |-> p, amax |-> amax, dmax |-> dmax]
Sc == [dir |-> 1, ent |-> <<[s0 |-> 100 * M, v0 |-> 10 * M], [s0 |-> 130 * M, v0 |-> 4 * M]>>,
       act |-> <<[k |-> "speed", e |-> 2, tv |-> 12 * M],
                 P(1, 0, <<[t |-> 8, v |-> 6 * M], [t |-> 8, v |-> 2 * M], [t |-> -1, v |-> 8 * M]>>, 8 * M, 4 * M),
                 P(2, 1, <<[t |-> 0, v |-> 2 * M], [t |-> 4, v |-> 0]>>, 0, 0),
                 D(1, 2, 10 * M, 0, FALSE, "any", TRUE, 0, 0), D(2, 1, 16, 1, TRUE, "trail", FALSE, 0, 0), D(1, 2, 20 * M, 0, FALSE, "trail", TRUE, 10240, 20 * M)>>]
Acts == 1..Len(Sc.act)
Ent == 1..Len(Sc.ent)

VARIABLES S, pre, op, d
vars == <<S, pre, op, d>>
None == [a \in Acts |-> 1]
Do(s, o) == Frame(Sc, s, o.g, o.dt, None, "trail")
Ops == [g : 0..Len(Sc.act), dt : {1, 4, 8}]
Init == d = 0 /\ S = Start(Sc) /\ pre = Start(Sc) /\ op = [g |-> 0, dt |-> 0]
Next == d < Depth /\ d' = d + 1 /\ \E o \in Ops : S' = Do(S, o) /\ op' = o /\ pre' = S
Spec == Init /\ [][Next]_vars

Kind(a) == Sc.act[a].k
\* a profile ends with the speed of its last entry, and never before that is reached
Corner == \A a \in Acts : Kind(a) = "profile" /\ (pre.run[a] \/ op.g = a) /\ ~S.run[a] /\ S.C[a] # << >> /\ (\A b \in Acts : Sc.act[b].e = Sc.act[a].e => ~S.run[b]) /\ op.g \in {0, a}
            => S.v[Sc.act[a].e] = S.C[a][Len(S.C[a])].v
\* the corners of a profile follow each other in time, and the speed is between its neighbours
Monotone == \A a \in Acts : S.C[a] # << >> => /\ \A i \in 1..(Len(S.C[a]) - 1) : S.C[a][i].t <= S.C[a][i + 1].t
                                               /\ (S.run[a] => LET v == S.v[Sc.act[a].e]  C == S.C[a] IN \E n \in 1..(Len(C) - 1) : Min(C[n].v, C[n + 1].v) <= v /\ v <= Max(C[n].v, C[n + 1].v))
\* limits hold: change of speed per frame, and speed
WithinLimits == \A a \in Acts : S.run[a] /\ Kind(a) # "speed" /\ Sc.act[a].amax > 0 /\ op.dt > 0 =>
  LET A == Sc.act[a]  dv == S.v[A.e] - pre.v[A.e] IN
  /\ dv <= SMulDiv(A.amax, op.dt, 16) + 1 /\ -dv <= SMulDiv(A.dmax, op.dt, 16) + 1
  /\ (Kind(a) = "dist" /\ Abs(pre.v[A.e]) <= A.vmax => Abs(S.v[A.e]) <= A.vmax)
\* without limits the distance is kept from the first frame on, unless the other one jumps too
Kept == \A a \in Acts : S.run[a] /\ Kind(a) = "dist" /\ Sc.act[a].amax = 0 /\ Sc.act[a].gap = 0 /\ (\A b \in Acts : S.run[b] => b = a \/ Kind(b) = "profile") /\ op.g \in {0, a} /\ (\A b \in Acts : b # a => ~pre.run[b])
          => Measured(Sc, S, Sc.act[a]) = (IF S.side[a] = "lead" THEN -1 ELSE 1) * Sc.act[a].x
\* on its side, with the speed of the other one
AsTarget == \A a \in Acts : S.run[a] /\ Kind(a) = "dist" /\ Sc.act[a].amax = 0 /\ (\A b \in Acts : S.run[b] => b = a) => S.v[Sc.act[a].e] = S.v[Sc.act[a].ref]
\* entities without actions keep their speed
OnlyTheirs == \A e \in Ent : (op.g = 0 \/ Sc.act[op.g].e # e) /\ (\A a \in Acts : pre.run[a] => Sc.act[a].e # e) => S.v[e] = pre.v[e]
OneEach == \A a, b \in Acts : a # b /\ S.run[a] /\ S.run[b] => Sc.act[a].e # Sc.act[b].e
=============================================================================
