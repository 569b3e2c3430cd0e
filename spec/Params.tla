------------------------------- MODULE Params -------------------------------
(* Parameters and expressions of a scenario document.                        *)
(* The document is a tree of scopes: global declarations (which the          *)
(* application may override while the scenario is loaded), and nested scopes *)
(* (story, maneuver, entity, controller, environment, trajectory, route, and *)
(* catalog entries with the parameter assignments of the reference).         *)
(* An attribute at some place of the document has the value of its           *)
(* expression in the environment of the scopes around that place.            *)
(* Values: [n, s]; n a number in units of 1/64 (booleans: 0 and 1), s the    *)
(* characters of a string.                                                   *)
EXTENDS Integers, Sequences, TLC

U == 64
Num(n) == [n |-> n, s |-> << >>]
Bool(b) == Num(IF b THEN U ELSE 0)
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
\* halfway to even
Rint(p, q) == LET f == (2 * p + q) \div (2 * q) IN IF (2 * p + q) % (2 * q) = 0 /\ f % 2 = 1 THEN f - 1 ELSE f
Round(x) == Rint(x, U) * U
Floor(x) == (x \div U) * U
Ceil(x) == -Floor(-x)
QuoExact(a, b) == Sgn(a) * Sgn(b) * ((Abs(a) * U) \div Abs(b))                 \* the generator keeps quotients exact
\* IEEE 754 remainder: a - b * (nearest integer to a / b, halfway to even)
Rem(a, b) == a - b * (Sgn(b) * Rint(a, Abs(b)))
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN U ELSE (a * Pow(a, k - 1)) \div U                   \* whole exponents >= 0, exact
Root(x) == CHOOSE r \in 0..1000 : r * r = x * U                                 \* perfect squares

Empty == "" :> Num(0)
Declared(S, n) == \E k \in 1..Len(S.scopes) : n \in DOMAIN S.scopes[k]
\* the innermost declaration around the place
Lookup(S, n) == LET k == CHOOSE k \in 1..Len(S.scopes) : n \in DOMAIN S.scopes[k] /\ \A j \in (k + 1)..Len(S.scopes) : n \notin DOMAIN S.scopes[j] IN S.scopes[k][n]

RECURSIVE Eval(_, _)
Eval(S, e) ==
  CASE e.t = "num" -> Num(e.v)
    [] e.t = "str" -> [n |-> 0, s |-> e.v]
    [] e.t = "par" -> Lookup(S, e.n)
    [] e.t = "cat" -> [n |-> 0, s |-> Eval(S, e.a).s \o Eval(S, e.b).s]
    [] e.t = "un" -> LET a == Eval(S, e.a).n IN
         (CASE e.f = "-" -> Num(-a) [] e.f = "not" -> Bool(a = 0) [] e.f = "round" -> Num(Round(a)) [] e.f = "floor" -> Num(Floor(a)) [] e.f = "ceil" -> Num(Ceil(a))
           [] e.f = "abs" -> Num(Abs(a)) [] e.f = "sign" -> Num(Sgn(a) * U) [] e.f = "sqrt" -> Num(Root(a))
           [] e.f = "cospi" -> Num(IF (a \div U) % 2 = 0 THEN U ELSE -U))
    [] e.t = "bin" -> LET a == Eval(S, e.a).n  b == Eval(S, e.b).n IN
         (CASE e.f = "+" -> Num(a + b) [] e.f = "-" -> Num(a - b) [] e.f = "*" -> Num(Sgn(a) * Sgn(b) * ((Abs(a) * Abs(b)) \div U)) [] e.f = "/" -> Num(QuoExact(a, b))
           [] e.f = "%" -> Num(Rem(a, b)) [] e.f \in {"**", "pow"} -> Num(IF a < 0 /\ (b \div U) % 2 = 1 THEN -Pow(-a, b \div U) ELSE Pow(Abs(a), b \div U))
           [] e.f = "min" -> Num(IF b < a THEN b ELSE a) [] e.f = "max" -> Num(IF b > a THEN b ELSE a)
           [] e.f = "<" -> Bool(a < b) [] e.f = "<=" -> Bool(a <= b) [] e.f = ">" -> Bool(a > b) [] e.f = ">=" -> Bool(a >= b) [] e.f = "==" -> Bool(a = b) [] e.f = "!=" -> Bool(a # b)
           [] e.f = "and" -> Bool(a # 0 /\ b # 0) [] e.f = "or" -> Bool(a # 0 \/ b # 0))

\* the declarations of one scope, in order; given: values that replace the declared ones
RECURSIVE Declare(_, _, _, _)
Declare(S, decls, given, i) ==
  IF i > Len(decls) THEN S
  ELSE LET d  == decls[i]
           gs == SelectSeq(given, LAMBDA g : g.n = d.n)
           v  == IF gs # << >> THEN gs[Len(gs)].v ELSE Eval(S, d.e)
           k  == Len(S.scopes)
       IN Declare([S EXCEPT !.scopes[k] = (d.n :> v) @@ @], decls, given, i + 1)

Open(S, decls, assign) ==
  LET given == [k \in 1..Len(assign) |-> [n |-> assign[k].n, v |-> Eval(S, assign[k].e)]]
  IN Declare([S EXCEPT !.scopes = Append(@, Empty)], decls, given, 1)

Show(ty, v) == IF ty = "s" THEN <<Len(v.s)>> \o v.s ELSE <<v.n>>

Start(sc) == [scopes |-> <<Empty>>]
Do(S, op) ==
  CASE op.o = "global" -> Declare(S, op.decls, op.over, 1)
    [] op.o = "open" -> Open(S, op.decls, op.assign)
    [] op.o = "close" -> [S EXCEPT !.scopes = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> S

RECURSIVE ShowAll(_, _)
ShowAll(S, ps) == IF ps = << >> THEN << >> ELSE Show(Head(ps).ty, Lookup(S, Head(ps).n)) \o ShowAll(S, Tail(ps))

Step(sc, S, op, ob) ==
  LET D == Do(S, op) IN
  [s |-> D, r |-> CASE op.o = "probe" -> Show(op.ty, Eval(D, op.e)) [] op.o = "global" -> ShowAll(D, op.show) [] OTHER -> << >>]
=============================================================================
