------------------------------ MODULE RecordMC ------------------------------
EXTENDS Record, TLC

CONSTANT Depth

Unit == 10
Obs == {1, 2}
States == UNION {[A -> {1, 2}] : A \in SUBSET Obs}
VARIABLES fs, S, pre, op
vars == <<fs, S, pre, op>>
NoOp == [k |-> 0, x |-> 0, f |-> 0]
Init == \E a \in States : fs = <<[t |-> 0, dt |-> 0, st |-> a]>> /\ S = None /\ pre = None /\ op = NoOp
Grow == /\ S.stop = 0 /\ Len(fs) < Depth
        /\ \E d \in {0, 1, 2}, a \in States : fs' = Append(fs, [t |-> fs[Len(fs)].t + Unit * d, dt |-> Unit * d, st |-> a])
        /\ UNCHANGED <<S, pre, op>>
Open == /\ S.stop = 0 /\ fs[Len(fs)].t > 0
        /\ fs' = Merged(fs) /\ S' = [None EXCEPT !.stop = fs[Len(fs)].t] /\ UNCHANGED <<pre, op>>
\* moves are explored for runs of one state only: they depend on the frame times
Plain == \A k \in 1..Len(fs) : DOMAIN fs[k].st = {}
Ops == {[k |-> 1, x |-> x, f |-> f] : x \in {5 * y : y \in -1..9}, f \in {0, 1}} \cup {[k |-> 2, x |-> x, f |-> f] : x \in {-15, -5, 5, 15}, f \in {0, 1}}
       \cup {[k |-> k, x |-> 0, f |-> f] : k \in {3, 4, 7, 8, 9}, f \in {0, 1}} \cup {[k |-> 5, x |-> x, f |-> 0] : x \in {0, 10}} \cup {[k |-> 6, x |-> x, f |-> 0] : x \in {15, 20}}
Times == [k \in 1..Len(fs) |-> fs[k].t]
Go == /\ S.stop > 0 /\ Plain /\ \E o \in Ops : op' = o /\ S' = Move(S, Times, o)
      /\ pre' = S /\ UNCHANGED fs
Next == Grow \/ Open \/ Go
Spec == Init /\ [][Next]_vars

\* the changes determine the frames: their times, and every state at every time
Lossless == S.stop = 0 /\ fs[Len(fs)].t > 0 =>
   LET m == Merged(fs)  D == Decode(Encode(fs)) IN
   Len(D) = Len(m) /\ \A k \in 1..Len(m) : D[k].t = m[k].t /\ D[k].st = m[k].st
\* a replay never leaves its limits
Within == S.stop > 0 /\ S.start <= S.stop => S.start <= S.time /\ S.time <= S.stop
\* stepping visits every frame within the limits: no frame lies between the time left and the time reached
NothingSkipped == op.k \in {3, 4} \/ (op.k \in {1, 2} /\ op.f = 1) =>
   LET a == Min(pre.time, S.time)  b == Max(pre.time, S.time) IN
   S.time # EndOf(pre) /\ S.time # BeginOf(pre) => \A k \in 1..Len(fs) : ~(a + TTol < Times[k] /\ Times[k] < b - TTol)
\* one step forwards and one back is where one was
ThereAndBack == S.stop > 0 /\ ~S.rep /\ S.time \in {Times[k] : k \in 1..Len(fs)} /\ S.time < S.stop /\ S.time >= S.start => Back([S EXCEPT !.time = Forward(S, Times)], Times) = S.time \/ Forward(S, Times) \notin {Times[k] : k \in 1..Len(fs)}
=============================================================================
