------------------------------- MODULE Values -------------------------------
(* The typed parameter and variable stores of a scenario.                    *)
(* sc.decl[n] = [k: "p"|"v", ty: "i"|"d"|"s"|"b", val, ref]: a declaration;   *)
(*    ref # 0 names an earlier parameter whose value is the default.         *)
(* Values are integers: "i" itself, "d" in units of 1/1024, "s" the rank in  *)
(* the pool of strings (rank order = lexicographic order), "b" 0 or 1.       *)
(* sc.acts[a] = [k, op: "set"|"add"|"mul", n, x], sc.evs[e] = actions of     *)
(* event e, sc.conds[c] = [k, n, rule, x]; n = 0 is an undeclared name.      *)
EXTENDS Integers, Sequences

Unit == 1024

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* type-correct access only: unknown name, other store or other type is refused
Refused(sc, op) == op.n = 0 \/ sc.decl[op.n].k # op.k \/ (op.ty # "*" /\ sc.decl[op.n].ty # op.ty)

\* one action
Act(sc, vals, a) ==
  IF a.n = 0 \/ sc.decl[a.n].k # a.k THEN vals
  ELSE LET ty == sc.decl[a.n].ty
           v  == vals[a.n]
       IN CASE a.op = "set" -> [vals EXCEPT ![a.n] = a.x]
            [] a.op = "add" /\ ty = "i" -> [vals EXCEPT ![a.n] = v + TruncDiv(a.x, Unit)]
            [] a.op = "add" /\ ty = "d" -> [vals EXCEPT ![a.n] = v + a.x]
            [] a.op = "mul" /\ ty = "i" -> [vals EXCEPT ![a.n] = TruncDiv(v * a.x, Unit)]
            [] a.op = "mul" /\ ty = "d" -> [vals EXCEPT ![a.n] = TruncDiv(v * a.x, Unit)]
            [] OTHER -> vals           \* arithmetic on strings and booleans has no effect

RECURSIVE ActAll(_, _, _, _)
ActAll(sc, vals, as, i) == IF i > Len(as) THEN vals ELSE ActAll(sc, Act(sc, vals, sc.acts[as[i]]), as, i + 1)

Holds(rule, a, b) ==
  CASE rule = "gt" -> a > b [] rule = "ge" -> a >= b [] rule = "lt" -> a < b
    [] rule = "le" -> a <= b [] rule = "eq" -> a = b [] rule = "ne" -> a # b

Cond(sc, vals, c) == IF c.n = 0 \/ sc.decl[c.n].k # c.k THEN 0 ELSE IF Holds(c.rule, vals[c.n], c.x) THEN 1 ELSE 0
Conds(sc, vals) == [j \in 1..Len(sc.conds) |-> Cond(sc, vals, sc.conds[j])]

\* values after initialisation: what the application set while the declarations were read replaces the declared default, also where
\* another declaration refers to the parameter; w is a sequence of type-correct writes (refused ones have no effect)
RECURSIVE Defaults(_, _, _, _)
Defaults(sc, w, n, vals) ==
  IF n > Len(sc.decl) THEN vals
  ELSE LET d  == sc.decl[n]
           ws == SelectSeq(w, LAMBDA o : ~Refused(sc, o) /\ o.n = n)
           v  == IF ws # << >> THEN ws[Len(ws)].x ELSE IF d.ref # 0 THEN vals[d.ref] ELSE d.val
       IN Defaults(sc, w, n + 1, Append(vals, v))

Start(sc) == [vals |-> << >>]

\* the stores as the application sees them after every operation
Show(S, rc, extra) == <<rc>> \o extra \o S.vals

Step(sc, S, op, ob) ==
  CASE op.o = "init" ->
         LET vals == Defaults(sc, op.w, 1, << >>)
             rcs  == [j \in 1..Len(op.w) |-> IF Refused(sc, op.w[j]) THEN -1 ELSE 0]
         IN [s |-> [vals |-> vals], r |-> Show([vals |-> vals], 0, rcs \o Conds(sc, vals))]
    [] op.o = "set" ->
         LET T == IF Refused(sc, op) THEN S ELSE [S EXCEPT !.vals[op.n] = op.x]
         IN [s |-> T, r |-> Show(T, IF Refused(sc, op) THEN -1 ELSE 0, << >>)]
    [] op.o = "get" ->
         [s |-> S, r |-> Show(S, IF Refused(sc, op) THEN -1 ELSE 0, <<IF Refused(sc, op) THEN 0 ELSE S.vals[op.n]>>)]
    [] op.o = "step" ->
         LET go == sc.go
             A  == [S EXCEPT !.vals[go] = op.g]
             B  == IF op.g = 0 THEN A ELSE [A EXCEPT !.vals = ActAll(sc, @, sc.evs[op.g], 1)]
         IN [s |-> B, r |-> Show(B, 0, Conds(sc, A.vals))]
=============================================================================
