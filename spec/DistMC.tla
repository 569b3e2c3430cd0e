------------------------------- MODULE DistMC -------------------------------
EXTENDS Dist, TLC

CONSTANT Depth

A(p, v) == [p |-> p, v |-> v]
Sets(s) == [k |-> "sets", sets |-> s, p |-> 0, lo |-> 0, hi |-> 0, st |-> 1]
Range(p, lo, hi, st) == [k |-> "range", sets |-> << >>, p |-> p, lo |-> lo, hi |-> hi, st |-> st]
Sc == [decl |-> <<100, 200>>,
       files |-> <<[ok |-> TRUE, dims |-> <<Sets(<< <<A(1, 1)>>, <<A(1, 2), A(2, 9)>> >>), Range(2, 5, 7, 2)>>],
                   [ok |-> TRUE, dims |-> <<Range(1, 3, 5, 1)>>],
                   [ok |-> TRUE, dims |-> <<Sets(<< <<A(1, 4)>>, <<A(3, 1)>> >>)>>],       \* the second alternative is not declared
                   [ok |-> FALSE, dims |-> << >>]>>]
Ops(S) ==
  {[o |-> "load", f |-> f] : f \in 1..4} \cup {[o |-> "reset"]} \cup {[o |-> "select", i |-> i] : i \in 0..4}
  \cup {[o |-> "init", perm |-> p, rec |-> FALSE] : p \in {q \in -1..4 : q # -1 \/ S.dims = << >> \/ S.req >= 0 \/ S.idx + 1 < Num(S)}}
  \cup (IF S.dims = << >> \/ S.req >= 0 \/ S.idx + 1 < Num(S) THEN {[o |-> "initdist", f |-> f, perm |-> -1, rec |-> FALSE] : f \in {1, 4}} ELSE {})

VARIABLES S, pre, op, r, seen, d         \* seen: runs since the last load, select or explicit permutation
vars == <<S, pre, op, r, seen, d>>
Do(o) == LET e == Step(Sc, S, o, << >>) IN
  /\ op' = o /\ pre' = S /\ S' = e.s /\ r' = e.r
  /\ seen' = IF o.o \in {"load", "reset"} \/ (o.o = "select" /\ e.r = <<0>>) \/ (o.o = "initdist" /\ S.dims = << >>) THEN (IF o.o = "initdist" THEN <<e.r>> ELSE << >>)
             ELSE IF o.o \in {"init", "initdist"} THEN (IF o.perm # -1 THEN << >> ELSE Append(seen, e.r)) ELSE seen
Init == S = None /\ pre = None /\ op = [o |-> "reset"] /\ r = <<0>> /\ seen = << >> /\ d = 1
Next == d < Depth /\ d' = d + 1 /\ \E o \in Ops(S) : Do(o)
Spec == Init /\ [][Next]_vars

Started == op.o \in {"init", "initdist"} /\ r[1] = 0
\* the permutations are exactly the combinations of alternatives, each once
Choices(dims) == [1..Len(dims) -> 0..10]
EveryCombination == S.dims # << >> =>
  LET f(i) == [j \in 1..Len(S.dims) |-> Pick(S.dims, i, j)] IN
  /\ Cardinality({f(i) : i \in 0..(Num(S) - 1)}) = Num(S)
  /\ \A j \in 1..Len(S.dims) : LET a == Alternatives(S.dims[j]) IN \A k \in 1..Len(a) : \E i \in 0..(Num(S) - 1) : Pick(S.dims, i, j) = a[k]
OncePerSweep == \A a, b \in 1..Len(seen) : a < b /\ seen[a][1] = 0 /\ seen[b][1] = 0 /\ seen[a][2] > 0 /\ seen[b][2] > 0 => seen[a][3] < seen[b][3]
\* the last dimension varies fastest
Rightmost == S.dims # << >> => \A i \in 0..(Num(S) - 2) : \E j \in 1..Len(S.dims) :
   /\ Pick(S.dims, i, j) # Pick(S.dims, i + 1, j) /\ \A k \in 1..(j - 1) : Pick(S.dims, i, k) = Pick(S.dims, i + 1, k)
SelectedRuns == Started /\ op.perm = -1 /\ pre.dims # << >> /\ pre.req >= 0 => r[3] = pre.req
ResetForgets == op.o = "reset" \/ (op.o = "load" /\ r = <<-1>>) => Num(S) = 0 /\ S.idx = -1
\* parameters outside the permutation keep their declared values, of several assignments the last one counts
LaterWins == Started => \A p \in 1..2 :
   LET js == {j \in 1..Len(S.dims) : p \in Names(Pick(S.dims, r[3], j))} IN
   IF js = {} THEN r[3 + p] = Sc.decl[p]
   ELSE LET j == CHOOSE j \in js : \A k \in js : k <= j IN \E m \in 1..Len(Pick(S.dims, r[3], j)) : Pick(S.dims, r[3], j)[m] = A(p, r[3 + p])
RefusedChangesNothing == (op.o = "select" \/ (op.o = "init" /\ op.perm # -1 /\ op.perm >= Num(pre))) /\ r = <<-1>> => S = pre
=============================================================================
