------------------------------- MODULE TrajMC -------------------------------
EXTENDS Traj, TLC

CONSTANT Depth

M == 4096
V(x, y, h, t) == [x |-> x * M, y |-> y * M, h |-> h, t |-> t * 1024]        \* t in quarters of a second
T(e, p, rel, hk, tm, scale, off, mode, ido) == [k |-> "traj", e |-> e, p |-> p, rel |-> rel, hk |-> hk, tm |-> tm, scale |-> scale, off |-> off, mode |-> mode, ido |-> ido]
Bend == <<V(300, 0, 0, 0), V(304, 3, 16384, 4), V(304, 8, 16384, 6)>>
Stand == <<V(400, 4, 32768, 1), V(396, 4, 32768, 3), V(396, 4, 32768, 7), V(394, 4, 32768, 9)>>
Sc == [ent |-> <<[x0 |-> 100 * M, y0 |-> -2 * M, h0 |-> 0, v0 |-> 8 * M], [x0 |-> 400 * M, y0 |-> 2 * M, h0 |-> 32768, v0 |-> -4 * M]>>,
       act |-> <<[k |-> "speed", e |-> 1, tv |-> -8 * M], [k |-> "speed", e |-> 2, tv |-> 20 * M],
                 T(1, Bend, 0, 0, "none", 4, 0, "pos", 2 * M), T(1, Bend, 2, 1, "rel", 4, 0, "fol", 0), T(1, Stand, 0, 0, "abs", 8, 1024, "pos", 0),
                 T(2, Bend, 0, 1, "none", 4, 0, "fol", 0), T(2, Stand, 0, 0, "rel", 4, -512, "fol", 0), T(2, Stand, 0, 1, "rel", 2, 0, "pos", M)>>]

VARIABLES S, pre, g, dt, d
vars == <<S, pre, g, dt, d>>
NoObs == [e \in 1..Len(Sc.ent) |-> 0]
Run(s, gg, t) == Frame(Sc, s, gg, t, NoObs, [a \in 1..Len(Sc.act) |-> 0])
Init == \E a \in 0..Len(Sc.act), b \in {1, 8} : d = 1 /\ pre = Start(Sc) /\ g = a /\ dt = b /\ S = Run(Start(Sc), a, b)
Next == /\ d < Depth
        /\ \E gg \in 0..Len(Sc.act), t \in {1, 8} : S' = Run(S, gg, t) /\ pre' = S /\ g' = gg /\ dt' = t
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Ent == 1..Len(Sc.ent)
Acts == 1..Len(Sc.act)
Begun(a) == g = a /\ ~pre.run[a]
At(a) == <<S.x[Sc.act[a].e], S.y[Sc.act[a].e]>>
From(a) == IF Begun(a) THEN Begin(Sc, pre, a) ELSE pre
\* while it follows a trajectory the entity is on its line
OnLine == \A a \in Acts : S.run[a] =>
            LET P == S.P[a]  p == At(a) IN
            /\ 0 <= S.s[a] /\ S.s[a] <= Length(P) /\ p = Along(P, S.s[a])
            /\ \E i \in 1..(Len(P) - 1) : /\ Min(P[i].x, P[i + 1].x) <= p[1] /\ p[1] <= Max(P[i].x, P[i + 1].x)
                                          /\ Min(P[i].y, P[i + 1].y) <= p[2] /\ p[2] <= Max(P[i].y, P[i + 1].y)
\* without time reference: exactly the distance its speed takes it, in the direction it faces
AsFarAsSpeed == \A a \in Acts : S.run[a] /\ ~Timed(Sc.act[a]) => LET e == Sc.act[a].e IN S.s[a] - From(a).s[a] = Sign(S.v[e]) * S.sg[a] * ((Abs(S.v[e]) * dt) \div 16)
\* with time reference: at (or, in follow mode, never behind) a vertex at its time, and not beyond it before
OnTime == \A a \in Acts : S.run[a] /\ Timed(Sc.act[a]) =>
            LET A == Sc.act[a]  P == S.P[a]  t == S.tt[a] + A.off IN
            /\ \A i \in 1..Len(P) : t >= P[i].t => S.s[a] >= P[i].s - 4
            /\ \A i \in 1..Len(P) : t <= P[i].t => S.s[a] <= P[i].s + 4
            /\ t < EndTime(P)
NeverBack == \A a \in Acts : S.run[a] /\ Timed(Sc.act[a]) /\ ~Begun(a) => S.s[a] >= pre.s[a]
\* it ends at the end (or the beginning) of the line, unless something else takes over
TookOver(a) == g # 0 /\ g # a /\ Sc.act[g].e = Sc.act[a].e /\ ~pre.run[g]
EndsAtEnd == \A a \in Acts : Sc.act[a].k = "traj" /\ (pre.run[a] \/ Begun(a)) /\ ~S.run[a] /\ ~TookOver(a) => S.s[a] \in {0, Length(S.P[a])}
\* headings stay between those of the vertices around
HeadingTurns == \A a \in Acts : S.run[a] =>
                  LET P == S.P[a]  h == HeadAt(P, Sc.act[a].mode, S.s[a]) IN
                  h = NotSeen \/ (\E i, j \in 1..Len(P) : Abs(Diff(h, P[i].h)) + Abs(Diff(P[j].h, h)) <= Abs(Diff(P[j].h, P[i].h)) + 1)
Independent == \A e \in Ent : (g = 0 \/ Sc.act[g].e # e) => LET N == Run(pre, 0, dt) IN S.x[e] = N.x[e] /\ S.y[e] = N.y[e] /\ S.h[e] = N.h[e] /\ S.v[e] = N.v[e]
=============================================================================
