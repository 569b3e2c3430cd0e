------------------------------ MODULE ValuesMC ------------------------------
(* The guarantees of the value stores, for all short histories of a small    *)
(* scenario with every type in both stores.                                  *)
EXTENDS Values, TLC

CONSTANT Depth

Sc == [decl |-> <<[k |-> "p", ty |-> "i", val |-> 1, ref |-> 0], [k |-> "p", ty |-> "b", val |-> 1, ref |-> 0], [k |-> "v", ty |-> "i", val |-> 0, ref |-> 1],
                  [k |-> "v", ty |-> "d", val |-> 512, ref |-> 0], [k |-> "v", ty |-> "s", val |-> 1, ref |-> 0], [k |-> "v", ty |-> "i", val |-> 0, ref |-> 0]>>,
       acts |-> <<[k |-> "v", op |-> "mul", n |-> 3, x |-> -1536], [k |-> "v", op |-> "add", n |-> 4, x |-> 256], [k |-> "p", op |-> "set", n |-> 1, x |-> 2],
                  [k |-> "v", op |-> "add", n |-> 5, x |-> 1024], [k |-> "v", op |-> "set", n |-> 1, x |-> 9], [k |-> "v", op |-> "set", n |-> 0, x |-> 9]>>,
       evs |-> <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>, go |-> 6,
       conds |-> <<[k |-> "v", n |-> 3, rule |-> "ge", x |-> 1], [k |-> "v", n |-> 3, rule |-> "lt", x |-> 1], [k |-> "p", n |-> 3, rule |-> "eq", x |-> 1]>>]

W == {[k |-> kk, n |-> n, ty |-> t, x |-> x] : kk \in {"p", "v"}, n \in 0..2, t \in {"i", "b"}, x \in {0, 1}}
Ops == {[o |-> "set", k |-> kk, n |-> n, ty |-> t, x |-> x] : kk \in {"p", "v"}, n \in 0..5, t \in {"i", "d", "s", "b"}, x \in {0, 1}}
       \cup {[o |-> "get", k |-> kk, n |-> n, ty |-> t, x |-> 0] : kk \in {"p", "v"}, n \in 0..5, t \in {"i", "d", "s", "b"}}
       \cup {[o |-> "step", g |-> g] : g \in 0..3}

VARIABLES S, pre, last, res, d
vars == <<S, pre, last, res, d>>
Init == /\ \E w \in {<< >>} \cup {<<a>> : a \in W} \cup {<<a, b>> : a \in W, b \in W} :
             LET e == Step(Sc, Start(Sc), [o |-> "init", w |-> w], << >>)
             IN S = e.s /\ pre = e.s /\ last = [o |-> "init", w |-> w] /\ res = e.r
        /\ d = 0
Next == /\ d < Depth
        /\ \E op \in Ops : \E e \in {Step(Sc, S, op, << >>)} : S' = e.s /\ pre' = S /\ last' = op /\ res' = e.r
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

TypeOK == /\ S.vals[2] \in {0, 1}
          /\ Len(S.vals) = Len(Sc.decl)
\* a refused access changes nothing; an accepted one changes the named entry only, to the given value
SetOnly == last.o = "set" => IF res[1] = -1 THEN S = pre
                             ELSE /\ last.n # 0 /\ Sc.decl[last.n].k = last.k /\ Sc.decl[last.n].ty = last.ty
                                  /\ S.vals[last.n] = last.x
                                  /\ \A n \in 1..Len(S.vals) : n # last.n => S.vals[n] = pre.vals[n]
GetPure == last.o = "get" => S = pre /\ (res[1] = 0 => res[2] = S.vals[last.n])
\* actions change only the entry they name, in the store they name
StepOnly == last.o = "step" => \A n \in 1..5 : S.vals[n] # pre.vals[n] => last.g # 0 /\ \E a \in 1..Len(Sc.evs[last.g]) : LET ac == Sc.acts[Sc.evs[last.g][a]] IN ac.n = n /\ ac.k = Sc.decl[n].k
\* complementary conditions on one entry never agree
CondSound == last.o = "step" => res[2] # res[3] /\ res[4] = 0
\* a write while the declarations are read reaches the declaration that refers to it
RefOk == last.o = "init" => S.vals[3] = (IF \E j \in 1..Len(last.w) : last.w[j].n = 3 /\ last.w[j].k = "v" /\ last.w[j].ty = "i" THEN S.vals[3] ELSE S.vals[1])
=============================================================================
