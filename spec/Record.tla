------------------------------- MODULE Record -------------------------------
(* Recording a run and replaying it.  A recording stands for the sequence of *)
(* frames of the run: at each frame time the objects then present, with      *)
(* their states, and the changes of storyboard elements.  What is written    *)
(* are only the changes (Encode); a reader has to recover all of it (Decode, *)
(* the model shows that it can).  A replay shows the frame in force at any   *)
(* time, and is moved through the frames forwards and backwards.             *)
(* Times in microseconds; object states are tuples of K integers.            *)
EXTENDS Arith, Sequences, FiniteSets

TTol == 2

(* ---- abstract frames: [t, dt, st], st a function from ids to a state, absent ids not in the domain ---- *)
\* frames at the same time are one; the last one counts
Merged(fs) == SelectSeq([k \in 1..Len(fs) |-> IF k < Len(fs) /\ fs[k + 1].t = fs[k].t THEN [fs[k] EXCEPT !.dt = -1] ELSE fs[k]], LAMBDA f : f.dt # -1)
\* the frame in force at time t; before the beginning it is the first one
At(fs, t) == LET c == {k \in 1..Len(fs) : fs[k].t <= t} IN IF c = {} THEN 1 ELSE CHOOSE k \in c : \A m \in c : m <= k

(* ---- the file: slices of what changed; a frame without any change leaves none; the time of the end is known ---- *)
RECURSIVE EncodeFrom(_, _, _, _)
EncodeFrom(fs, k, dt, st) ==
  IF k > Len(fs) THEN << >>
  ELSE LET f == fs[k]
           new == {i \in DOMAIN f.st : i \notin DOMAIN st \/ st[i] # f.st[i]}
           gone == DOMAIN st \ DOMAIN f.st
           sl == [t |-> f.t, dt |-> IF f.dt # dt THEN f.dt ELSE -1, new |-> [i \in new |-> f.st[i]], gone |-> gone]
       IN (IF sl.dt = -1 /\ new = {} /\ gone = {} THEN << >> ELSE <<sl>>) \o EncodeFrom(fs, k + 1, f.dt, f.st)
Encode(fs) == [slices |-> EncodeFrom(fs, 1, -1, << >>), end |-> fs[Len(fs)].t]

\* frame times: the frames left out have the time step of the slice before them
RECURSIVE TimesFrom(_, _, _, _, _)
TimesFrom(F, k, t, dt, out) ==
  LET sl == F.slices
      next == IF k <= Len(sl) THEN sl[k].t ELSE F.end
      own == IF k <= Len(sl) /\ sl[k].dt > 0 THEN sl[k].dt ELSE dt
  IN IF t < next - own THEN TimesFrom(F, k, t + dt, dt, Append(out, t + dt))
     ELSE LET o == IF next > t THEN Append(out, next) ELSE out IN
          IF k > Len(sl) THEN o ELSE TimesFrom(F, k + 1, next, own, o)
DecodeTimes(F) == TimesFrom(F, 2, F.slices[1].t, F.slices[1].dt, <<F.slices[1].t>>)
RECURSIVE StateAt(_, _, _, _)
StateAt(sl, k, t, st) ==
  IF k > Len(sl) \/ sl[k].t > t THEN st
  ELSE StateAt(sl, k + 1, t, [i \in (DOMAIN st \cup DOMAIN sl[k].new) \ sl[k].gone |-> IF i \in DOMAIN sl[k].new THEN sl[k].new[i] ELSE st[i]])
Decode(F) == LET ts == DecodeTimes(F) IN [k \in 1..Len(ts) |-> [t |-> ts[k], st |-> StateAt(F.slices, 1, ts[k], << >>)]]

(* ---- moving through a replay: S.time, S.start, S.stop, S.rep; T the frame times ---- *)
EndOf(S) == IF S.rep THEN S.start ELSE S.stop
BeginOf(S) == IF S.rep THEN S.stop ELSE S.start
Later(T, t) == {k \in 1..Len(T) : T[k] > t + TTol}
Earlier(T, t) == {k \in 1..Len(T) : T[k] < t - TTol}
NextTime(T, t) == T[CHOOSE k \in Later(T, t) : \A m \in Later(T, t) : k <= m]
PrevTime(T, t) == T[CHOOSE k \in Earlier(T, t) : \A m \in Earlier(T, t) : m <= k]
Goto(S, x) == IF x >= S.stop - TTol THEN EndOf(S) ELSE IF x <= S.start + TTol THEN BeginOf(S) ELSE x
Forward(S, T) == IF Later(T, S.time) = {} \/ NextTime(T, S.time) > S.stop + TTol THEN EndOf(S) ELSE NextTime(T, S.time)
Back(S, T) == IF Earlier(T, S.time) = {} \/ PrevTime(T, S.time) < S.start - TTol THEN BeginOf(S) ELSE PrevTime(T, S.time)
\* towards x, but no further than the next frame on the way
Towards(S, T, x) ==
  LET f == Later(T, S.time) # {} /\ x >= NextTime(T, S.time) - TTol
      b == Earlier(T, S.time) # {} /\ x <= PrevTime(T, S.time) + TTol
      In(y) == IF y > S.stop + TTol THEN EndOf(S) ELSE IF y < S.start - TTol THEN BeginOf(S) ELSE y
  IN IF x > S.time THEN (IF f THEN Forward(S, T) ELSE IF x > S.stop THEN EndOf(S) ELSE In(x))
     ELSE IF x < S.time THEN (IF b THEN Back(S, T) ELSE IF x < S.start THEN BeginOf(S) ELSE In(x))
     ELSE S.time
\* 0 show, 1 go to, 2 go by, 3 next, 4 previous, 5 set start, 6 set stop, 7 repeat, 8 to start, 9 to end, 10 to the nearest frame not before
Move(S, T, op) ==
  CASE op.k = 1 -> [S EXCEPT !.time = IF op.f = 1 THEN Towards(S, T, op.x) ELSE Goto(S, op.x)]
    [] op.k = 2 -> [S EXCEPT !.time = IF op.f = 1 THEN Towards(S, T, S.time + op.x) ELSE Goto(S, S.time + op.x)]
    [] op.k = 3 -> [S EXCEPT !.time = Forward(S, T)]
    [] op.k = 4 -> [S EXCEPT !.time = Back(S, T)]
    [] op.k = 5 -> [S EXCEPT !.start = op.x, !.time = Max(@, op.x)]
    [] op.k = 6 -> [S EXCEPT !.stop = op.x, !.time = Min(@, op.x)]
    [] op.k = 7 -> [S EXCEPT !.rep = op.f = 1]
    [] op.k = 8 -> [S EXCEPT !.time = IF op.f = 1 THEN S.start ELSE BeginOf(S)]
    [] op.k = 9 -> [S EXCEPT !.time = IF op.f = 1 THEN S.stop ELSE EndOf(S)]
    [] op.k = 10 -> [S EXCEPT !.time = LET c == {k \in 1..Len(T) : T[k] >= S.time - TTol} IN IF c = {} THEN T[Len(T)] ELSE T[CHOOSE k \in c : \A m \in c : k <= m]]
    [] OTHER -> S

(* ---- conformance ---- *)
K == 40
None == [fs |-> << >>, ids |-> << >>, time |-> 0, start |-> 0, stop |-> 0, rep |-> FALSE]
Start(sc) == None
\* observation of a frame: time, number of objects, per object its id and state, the changes of storyboard elements (three numbers each)
FrameOf(op, ob) == LET n == ob[2] IN
  [t |-> ob[1], dt |-> op.dt, st |-> [i \in {ob[3 + k * (K + 1)] : k \in 0..(n - 1)} |-> LET p == CHOOSE k \in 0..(n - 1) : ob[3 + k * (K + 1)] = i IN SubSeq(ob, 4 + p * (K + 1), 3 + K + p * (K + 1))],
   esc |-> SubSeq(ob, 3 + n * (K + 1), Len(ob))]
Ids(fs) == UNION {DOMAIN fs[k].st : k \in 1..Len(fs)}
RECURSIVE Sorted(_)
Sorted(A) == IF A = {} THEN << >> ELSE LET m == CHOOSE x \in A : \A y \in A : x <= y IN <<m>> \o Sorted(A \ {m})
RECURSIVE Flat(_, _)
Flat(q, k) == IF k > Len(q) THEN << >> ELSE q[k] \o Flat(q, k + 1)
Pick(ob, p, w, tol) == IF p <= Len(ob) /\ Near(ob[p], w, tol) THEN ob[p] ELSE w
\* lights (the last 14 values) are recorded once a light action was performed
Untouched(m, v) == (m - 1) % (K + 1) > K - 14 /\ v = 3
\* per object ever recorded: present, state (0s if not); values written only when they change by more than a millionth may differ in the last digit
Show(fs, ids, t, ob, base) ==
  LET k == At(fs, t + TTol)
      One(j) == IF ids[j] \in DOMAIN fs[k].st THEN <<1>> \o fs[k].st[ids[j]] ELSE [m \in 1..(K + 1) |-> 0]
      all == Flat([j \in 1..Len(ids) |-> One(j)], 1)
  IN [m \in 1..Len(all) |-> IF Untouched(m, all[m]) /\ base + m <= Len(ob) THEN ob[base + m] ELSE Pick(ob, base + m, all[m], 1)]
Changes(fs) == Flat([k \in 1..Len(fs) |-> LET e == fs[k].esc IN [m \in 1..(4 * (Len(e) \div 3)) |-> IF m % 4 = 1 THEN fs[k].t ELSE e[(3 * ((m - 1) \div 4)) + ((m - 1) % 4)]]], 1)
\* rows of the table: per frame and object present, time, id and the listed columns of its state
Cols == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>
Rows(fs) == Flat([k \in 1..Len(fs) |-> LET ids == Sorted(DOMAIN fs[k].st) IN Flat([j \in 1..Len(ids) |-> <<fs[k].t, ids[j]>> \o [m \in 1..Len(Cols) |-> fs[k].st[ids[j]][Cols[m]]]], 1)], 1)

Step(sc, S, op, ob) ==
  CASE op.o = "frame" ->
         IF Len(ob) < 2 THEN [s |-> S, r |-> <<-1>>]
         ELSE LET t == (IF S.fs = << >> THEN 0 ELSE S.fs[Len(S.fs)].t) + op.dt  f == FrameOf(op, ob) IN
              [s |-> [S EXCEPT !.fs = Append(@, [f EXCEPT !.t = Pick(ob, 1, t, TTol)])], r |-> <<Pick(ob, 1, t, TTol)>> \o Tail(ob)]
    [] op.o = "open" ->
         LET m == Merged(S.fs)  last == m[Len(m)].t  ids == Sorted(Ids(S.fs))  c == Changes(S.fs)
             r == <<m[1].t, last, m[1].t, Len(m)>> \o [k \in 1..Len(m) |-> m[k].t] \o <<Len(ids)>> \o ids \o c
             tm == 1..(4 + Len(m))
         IN [s |-> [S EXCEPT !.fs = m, !.ids = ids, !.start = m[1].t, !.stop = last, !.time = m[1].t], r |-> [k \in 1..Len(r) |-> IF k \in tm \/ (k > 5 + Len(m) + Len(ids) /\ (k - 5 - Len(m) - Len(ids)) % 4 = 1) THEN Pick(ob, k, r[k], TTol) ELSE r[k]]]
    [] op.o = "at" -> [s |-> S, r |-> Show(S.fs, S.ids, op.t, ob, 0)]
    [] op.o = "table" -> LET q == Rows(S.fs) IN [s |-> S, r |-> [m \in 1..Len(q) |-> Pick(ob, m, q[m], 2)]]
    [] op.o = "move" ->
         LET Q == Move(S, [k \in 1..Len(S.fs) |-> S.fs[k].t], op)
             t == Pick(ob, 1, Q.time, TTol)
         IN [s |-> [Q EXCEPT !.time = t], r |-> <<t, Pick(ob, 2, Q.start, TTol), Pick(ob, 3, Q.stop, TTol)>> \o Show(S.fs, S.ids, t, ob, 3)]
=============================================================================
