------------------------------ MODULE LightsMC ------------------------------
EXTENDS Lights, TLC

CONSTANTS Depth, Fam

Li(g, t, md, lum, T, on, off) == [k |-> "light", ev |-> g, e |-> 1, ty |-> t, md |-> md, lum |-> lum, T |-> T, on |-> on, off |-> off]
Ov(g, o, act, val, vt) == [k |-> "over", ev |-> g, e |-> 1, o |-> o, act |-> act, val |-> val, rate |-> -4096, tq |-> -4096, num |-> 0, vt |-> vt]
Acts == CASE Fam = 1 -> <<Li(1, 8, 1, 6000, 0, 8, 8), Li(2, 8, 2, 6000, 0, 2, 3), Li(3, 9, 2, 6000, 0, 3, 2), Li(4, 9, 1, 200, 5, 8, 8), Li(5, 7, 2, 6000, 0, 4, 2),
                          Li(6, 7, 0, 6000, 3, 8, 8), Li(7, 8, 0, 6000, 4, 8, 8), Li(8, 6, 1, 20000, 3, 8, 8), Li(9, 6, 0, 0, 5, 8, 8)>>
          [] OTHER -> <<Li(1, 3, 1, 6000, 3, 8, 8), Li(2, 4, 0, 6000, 0, 8, 8), Li(2, 5, 1, 1, 6, 8, 8), Li(3, 3, 2, 12000, 0, 2, 2), Li(4, 4, 1, 0, 0, 8, 8),
                        Ov(5, 1, 1, 6000, 0), Ov(6, 2, 1, 20000, 1), [k |-> "vis", ev |-> 7, e |-> 1, mask |-> 5],
                        [k |-> "sig", ev |-> 8, e |-> 0, sig |-> 1, st |-> <<3, 2>>], [k |-> "sig", ev |-> 9, e |-> 0, sig |-> 1, st |-> <<6, 4>>], Ov(9, 5, 0, -30000, 0)>>
Sc == [ne |-> 2, dt |-> 2, nev |-> 9, act |-> Acts, sig |-> <<2, 3>>, watch |-> <<[sig |-> 1, st |-> <<3, 2>>]>>]

VARIABLES S, pre, op, d
vars == <<S, pre, op, d>>
Init == d = 0 /\ S = Initial(Sc, Start(Sc)) /\ pre = Start(Sc) /\ op = [o |-> "init", g |-> 0]
Next == /\ d < Depth
        /\ \E g \in 0..Sc.nev : S' = Frame(Sc, S, g) /\ pre' = S /\ op' = [o |-> "step", g |-> g]
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

A == 1..Len(Acts)
IsL(a) == Acts[a].k = "light"
Begun == IF op.o = "step" /\ op.g # 0 /\ ~Busy(Sc, pre, op.g) THEN {a \in A : Acts[a].ev = op.g} ELSE {}
\* no two actions work on the same lamps
OneOwner == \A a, b \in A : a # b /\ S.run[a] /\ S.run[b] => ~Clash(Acts[a].ty, Acts[b].ty)
Touched(l) == \E a \in A : IsL(a) /\ (pre.run[a] \/ a \in Begun) /\ \E m \in Aff(Acts[a].ty) : Clash(m, l)
Untouched == \A l \in Lt : ~Touched(l) => S.mode[1][l] = pre.mode[1][l] /\ S.lum[1][l] = pre.lum[1][l]
NotOthers == S.mode[2] = Start(Sc).mode[2] /\ S.lum[2] = Start(Sc).lum[2] /\ S.over[2] = Start(Sc).over[2] /\ S.vis[2] = 255
AtOnce == \A a \in Begun : IsL(a) /\ Acts[a].T = 0 =>
            \A l \in Aff(Acts[a].ty) : S.mode[1][l] = Acts[a].md /\ S.lum[1][l] = Target(Acts[a])
\* an indicator puts the other one out
OneIndicator == \A a \in Begun : IsL(a) => /\ (Acts[a].ty = 8 => S.lum[1][9] = 0)
                                           /\ (Acts[a].ty = 9 => S.lum[1][8] = 0)
Working(l) == \E a \in A : IsL(a) /\ S.run[a] /\ l \in Aff(Acts[a].ty)
Dark == \A l \in Lt : S.mode[1][l] = 0 /\ ~Working(l) => S.lum[1][l] = 0
Blinks == \A a \in A : IsL(a) /\ S.run[a] /\ Acts[a].md = 2 =>
            /\ \A l \in Aff(Acts[a].ty) : S.lum[1][l] = (IF S.lit[a] THEN Target(Acts[a]) ELSE 0)
            /\ S.ft[a] <= (IF S.lit[a] THEN Acts[a].on ELSE Acts[a].off) + Sc.dt
Replaced(a) == \E b \in Begun : IsL(b) /\ b # a /\ Clash(Acts[a].ty, Acts[b].ty)
Reached == \A a \in A : IsL(a) /\ pre.run[a] /\ ~S.run[a] /\ ~Replaced(a) =>
             \A l \in Aff(Acts[a].ty) : S.mode[1][l] = Acts[a].md /\ S.lum[1][l] = Target(Acts[a])
\* within its time a change has come to its end
InTime == \A a \in A : IsL(a) /\ S.run[a] /\ Acts[a].md # 2 => S.p[a] < Acts[a].T + Sc.dt
Between == \A l \in Lt : S.lum[1][l] \in 0..Full
Kept == /\ \A o \in 1..6 : (\A a \in Begun : ~(Acts[a].k = "over" /\ Acts[a].o = o)) => S.over[1][o] = pre.over[1][o]
        /\ (\A a \in Begun : Acts[a].k # "vis") => S.vis[1] = pre.vis[1]
        /\ \A s \in 1..2 : (\A a \in Begun : ~(Acts[a].k = "sig" /\ Acts[a].sig = s)) => S.lamp[s] = pre.lamp[s]
Limited == \A o \in {1, 3} : S.over[1][o].val \in 0..4096
=============================================================================
