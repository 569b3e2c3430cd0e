------------------------------ MODULE ParamsMC ------------------------------
EXTENDS Params, FiniteSets

CONSTANT Depth

P(n) == [t |-> "par", n |-> n]
N(v) == [t |-> "num", v |-> v * U]
Plus(a, b) == [t |-> "bin", f |-> "+", a |-> a, b |-> b]
D(n, e) == [n |-> n, ty |-> "d", e |-> e]
Names == {"a", "b"}
Globals == {<<D("a", N(1)), D("b", e)>> : e \in {N(2), P("a"), Plus(P("a"), N(1))}}
Overs == {<< >>} \cup {<<[n |-> n, v |-> Num(7 * U)]>> : n \in Names}
Local(n) == {N(3), P("a"), P("b"), Plus(P("a"), P("b"))}
\* scopes that do not refer to anything outside (catalog entries), with and without assignments
Entries == {<<D("a", N(4)), D("b", P("a"))>>, <<D("b", N(5))>>}
Assigns == {<< >>} \cup {<<[n |-> n, e |-> e]>> : n \in Names, e \in {N(6), P("a")}}
Ops(S) ==
  {[o |-> "open", decls |-> <<D(n, e)>>, assign |-> << >>] : n \in Names, e \in Local("a")}
  \cup {[o |-> "open", decls |-> d, assign |-> a] : d \in Entries, a \in Assigns}
  \cup (IF Len(S.scopes) > 1 THEN {[o |-> "close"]} ELSE {})

VARIABLES S, pre, op, stack, d     \* stack: the states in which the open scopes were opened
vars == <<S, pre, op, stack, d>>
Init == \E g \in Globals, o \in Overs :
  /\ op = [o |-> "global", decls |-> g, over |-> o] /\ pre = Start(0) /\ S = Do(Start(0), op) /\ stack = << >> /\ d = 1
Next == /\ d < Depth /\ d' = d + 1 /\ pre' = S
        /\ \E o \in Ops(S) : /\ op' = o /\ S' = Do(S, o)
                             /\ stack' = IF o.o = "open" THEN Append(stack, S) ELSE SubSeq(stack, 1, Len(stack) - 1)
Spec == Init /\ [][Next]_vars

V(Q, n) == Eval(Q, P(n)).n
Assigned(o) == {o.assign[k].n : k \in 1..Len(o.assign)}
Decl(o) == {o.decls[k].n : k \in 1..Len(o.decls)}
Balanced == Len(S.scopes) = Len(stack) + 1
InnermostWins == op.o = "open" => \A k \in 1..Len(op.decls) :
   /\ V(S, op.decls[k].n) = S.scopes[Len(S.scopes)][op.decls[k].n].n
   /\ (op.decls[k].e.t = "num" /\ op.decls[k].n \notin Assigned(op) => V(S, op.decls[k].n) = op.decls[k].e.v)
ScopesLeaveNoTrace == op.o = "close" => LET k == Len(pre.scopes) IN \A n \in Names : S.scopes = SubSeq(pre.scopes, 1, k - 1)
\* opening a scope neither changes names it does not declare nor the scopes around it
OthersUntouched == op.o = "open" => /\ \A n \in Names \ Decl(op) : V(S, n) = V(pre, n)
                                    /\ SubSeq(S.scopes, 1, Len(pre.scopes)) = pre.scopes
                                    /\ \A k \in 1..Len(stack) : SubSeq(S.scopes, 1, Len(stack[k].scopes)) = stack[k].scopes
\* a value the application set replaces the declared one, also for the declarations that refer to it
OverrideReachesAll == op.o = "global" =>
   /\ \A k \in 1..Len(op.over) : V(S, op.over[k].n) = op.over[k].v.n
   /\ (op.over # << >> /\ op.over[1].n = "a" /\ op.decls[2].e = P("a") => V(S, "b") = 7 * U)
\* assignments are evaluated outside of the entry, reach its declarations and no other names
AssignmentsStayLocal == op.o = "open" => \A k \in 1..Len(op.assign) :
   LET a == op.assign[k] IN IF a.n \in Decl(op) THEN V(S, a.n) = Eval(pre, a.e).n ELSE V(S, a.n) = V(pre, a.n)
=============================================================================
