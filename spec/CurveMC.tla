------------------------------ MODULE CurveMC ------------------------------
(* The geometry of Curve.tla for a range of curvatures and step lengths: the *)
(* line it makes does not depend on how it is cut into steps.                *)
EXTENDS Curve, FiniteSets

CONSTANT Far
Ks == {-41943, -10486, 0, 5243, 31457}              \* curvatures from -0.04 to 0.03
Steps == {512, 1024, 2048}
VARIABLES ka, kb, s, p
vars == <<ka, kb, s, p>>
Total == Far * 1024
K(z) == ka + SMulDiv(kb - ka, z, Total)
Start0 == [x |-> 0, y |-> 0, d |-> <<26214, 19661>>]       \* 4, 3
Init == ka \in Ks /\ kb \in Ks /\ s = 0 /\ p = Start0
Next == \E ds \in Steps : s + ds <= Total /\ p' = On(p, ds, K(s), K(s + ds)) /\ s' = s + ds /\ UNCHANGED <<ka, kb>>
Spec == Init /\ [][Next]_vars

Unit == Near(M(p.d[1], p.d[1]) + M(p.d[2], p.d[2]), One, 40)
\* the same place, whatever the steps were: compared with steps of half a metre
RECURSIVE Fine(_, _)
Fine(z, q) == IF z >= s THEN q ELSE Fine(z + 512, On(q, 512, K(z), K(z + 512)))
SamePlace == LET q == Fine(0, Start0) IN Near(q.x, p.x, 24) /\ Near(q.y, p.y, 24) /\ Near(q.d[1], p.d[1], 60) /\ Near(q.d[2], p.d[2], 60)
\* without curvature a straight line, with a constant one a circle about the centre of curvature
Straight == ka = 0 /\ kb = 0 => Near(p.x, SMulDiv(s, 26214, One), 24) /\ Near(p.y, SMulDiv(s, 19661, One), 24) /\ p.d = Start0.d
Radius(k) == 1073741824 \div k                          \* in units of 2^-10 m
Circle == ka = kb /\ ka # 0 =>
            LET R == Radius(ka)  cx == -(R * 19661) \div One  cy == (R * 26214) \div One       \* left of the start direction
                dx == (p.x - cx) \div 4  dy == (p.y - cy) \div 4  r4 == R \div 4
            IN Abs(R) > 100000 \/ Near(dx * dx + dy * dy, r4 * r4, 24 * Abs(r4))
\* no point is farther from the start than the line is long
NoShortcut == LET d2 == (p.x \div 4) * (p.x \div 4) + (p.y \div 4) * (p.y \div 4) IN d2 <= (s \div 4) * (s \div 4) + 16 * s + 64
\* the axes of the surface are perpendicular
Surf == [elev |-> << [s |-> 0, a |-> 0, b |-> 3000, c |-> 4000, d |-> 0] >>, bank |-> << [s |-> 0, a |-> -2000, b |-> 900, c |-> 0, d |-> 0] >>]
Dot(a, b) == M(a[1], b[1]) + M(a[2], b[2]) + M(a[3], b[3])
Square == LET a == Axes(Surf, s, p.d) IN \A m, n \in 1..3 : Near(Dot(a[m], a[n]), IF m = n THEN One ELSE 0, 60)
=============================================================================
