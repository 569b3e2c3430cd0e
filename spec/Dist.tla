-------------------------------- MODULE Dist --------------------------------
(* Parameter value distributions.  A distribution file is a sequence of      *)
(* dimensions; a dimension is a set of alternatives, each a set of parameter *)
(* assignments (for a range: one alternative per value).  The permutations   *)
(* are all combinations, the last dimension varying fastest.  Each           *)
(* initialisation runs the requested permutation, or else the one after the  *)
(* previous run's.                                                           *)
(* Parameters are numbered 1..n; a value is an integer (numbers in 1/64,     *)
(* texts by code).  sc.decl: declared values; sc.files: the files.           *)
EXTENDS Integers, Sequences, FiniteSets

\* file: [ok, dims]; dimension: [k |-> "sets", sets |-> <<set, ...>>], set: <<[p, v], ...>>   or  [k |-> "range", p, lo, hi, st]
Alternatives(d) == IF d.k = "range" THEN [j \in 1..((d.hi - d.lo) \div d.st + 1) |-> <<[p |-> d.p, v |-> d.lo + (j - 1) * d.st]>>] ELSE d.sets
RECURSIVE Count(_, _)
Count(dims, j) == IF j > Len(dims) THEN 1 ELSE Len(Alternatives(dims[j])) * Count(dims, j + 1)
Num(S) == IF S.dims = << >> THEN 0 ELSE Count(S.dims, 1)
\* the alternative of dimension j in permutation i
Pick(dims, i, j) == LET a == Alternatives(dims[j]) IN a[((i \div Count(dims, j + 1)) % Len(a)) + 1]

RECURSIVE Assign(_, _), All(_, _, _, _)
Assign(vals, set) == IF set = << >> THEN vals ELSE Assign([vals EXCEPT ![Head(set).p] = Head(set).v], Tail(set))
All(vals, dims, i, j) == IF j > Len(dims) THEN vals ELSE All(Assign(vals, Pick(dims, i, j)), dims, i, j + 1)
Names(set) == {set[k].p : k \in 1..Len(set)}
Values(sc, S, i) == All(sc.decl, S.dims, i, 1)
\* all parameters of the permutation are declared in the scenario
Declared(sc, S, i) == \A j \in 1..Len(S.dims) : Names(Pick(S.dims, i, j)) \subseteq 1..Len(sc.decl)

None == [dims |-> << >>, idx |-> -1, req |-> 0, scen |-> 0]
Start(sc) == None

\* index of the run that would be started (-2: refused)
Index(S, op) ==
  IF op.perm # -1 THEN (IF op.perm >= 0 /\ op.perm < Num(S) THEN op.perm ELSE -2)
  ELSE IF S.req >= 0 THEN S.req ELSE S.idx + 1
\* what is run and the files it writes: <<number of the recording, of how many>>
Run(sc, S, op) ==
  LET i == Index(S, op) IN
  IF S.dims = << >> THEN (IF op.perm > 0 THEN [s |-> S, r |-> <<-1>>] ELSE [s |-> S, r |-> <<0, 0, -1>> \o sc.decl \o (IF op.rec THEN <<0, 0>> ELSE << >>)])
  ELSE IF i = -2 THEN [s |-> S, r |-> <<-1>>]
  ELSE LET T == [S EXCEPT !.idx = i, !.req = -1] IN
       [s |-> T, r |-> IF Declared(sc, S, i) THEN <<0, Num(S), i>> \o Values(sc, S, i) \o (IF op.rec THEN <<i + 1, Num(S)>> ELSE << >>) ELSE <<-1>>]

Load(sc, S, op) ==
  LET f == sc.files[op.f] IN
  IF f.ok THEN [s |-> [None EXCEPT !.dims = f.dims], r |-> <<0>>] ELSE [s |-> None, r |-> <<-1>>]

Step(sc, S, op, ob) ==
  CASE op.o = "load" -> Load(sc, S, op)
    [] op.o = "reset" -> [s |-> None, r |-> <<0>>]
    [] op.o = "select" -> IF op.i < Num(S) THEN [s |-> [S EXCEPT !.req = op.i], r |-> <<0>>] ELSE [s |-> S, r |-> <<-1>>]
    [] op.o = "num" -> [s |-> S, r |-> <<Num(S)>>]
    [] op.o = "index" -> [s |-> S, r |-> <<S.idx>>]
    [] op.o = "init" -> Run(sc, S, op)
    \* run the distribution file itself, as a scenario: loads it unless one is loaded
    [] op.o = "initdist" -> LET L == IF S.dims = << >> THEN Load(sc, S, op) ELSE [s |-> S, r |-> <<0>>] IN IF L.r = <<-1>> THEN [s |-> L.s, r |-> <<-1>>] ELSE Run(sc, L.s, op)
=============================================================================
