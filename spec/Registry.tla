------------------------------ MODULE Registry ------------------------------
(* The entities of a running scenario as seen and changed from outside:      *)
(* objects are added, deleted, looked up, given states by reports, and moved *)
(* on by frames; registered callbacks are called.  Lengths in 2^-12 m,       *)
(* speeds, accelerations and angular rates likewise, time in 1/16 s.         *)
(* The road is straight along the x axis; lanes of 4 m, three on each side.  *)
(* sc.v0: speed of the two entities of the scenario (ids 0 and 1, default    *)
(* control); scenario action 1 deletes entity 1, action 2 adds it again at   *)
(* (AddX, AddY), each in the frames in which the environment chooses it.     *)
(* op.o = "add" (type, name), "del", "pos" (x, y, h), "posz" (x, y, z, h),   *)
(*   "lane" (lane, off, s), "lat" (t), "latlane" (lane, off), "speed" (v),   *)
(*   "vel" (vx, vy, vz), "acc" (ax, ay), "rate" (hr), "wheel" (rot, angle),  *)
(*   "snap", "lock", "cb" (tag), "step" (dt, g); all but add/step have id.   *)
EXTENDS Arith, Sequences, FiniteSets

M == 4096
Tol == 3
\* headings: angle, cosine and sine in 2^-12
Ang == <<0, 6434, 12868, 19302, 3798, 23098>>
Cosh == <<4096, 0, -4096, 0, 2458, 3277>>
Sinh == <<0, 4096, 0, -4096, 3277, -2458>>
Turn == 25736
AddX == 3000 * M
AddY == -6 * M
LaneW == 4 * M
K == 19                     \* values shown per object
Names == 1..5               \* 1, 2: entities of the scenario; 3..5: given; 10 + id: chosen by esmini

RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN SqrtIn(x, m, hi) ELSE SqrtIn(x, lo, m)
RECURSIVE Hyp(_, _)
Hyp(a, b) == IF Max(Abs(a), Abs(b)) > 30000 THEN 2 * Hyp(Abs(a) \div 2, Abs(b) \div 2) ELSE SqrtIn(a * a + b * b, 0, 46341)
HypTol(a, b) == Tol + Max(Abs(a), Abs(b)) \div 8192
LaneOf(y) == IF y > 0 THEN 1 + y \div LaneW ELSE -(1 + (-y) \div LaneW)
LaneY(lane, off) == Sign(lane) * (Abs(lane) * LaneW - LaneW \div 2) + off

\* dirty: what was set since the last frame
Object(name, type, x, y, v) ==
  [ex |-> TRUE, name |-> name, type |-> type, ext |-> type \in {1, 2} /\ name > 2, x |-> x, y |-> y, z |-> 0, h |-> 1, v |-> v, vx |-> v, vy |-> 0, vz |-> 0, ax |-> 0, ay |-> 0, hr |-> 0,
   odo |-> 0, wr |-> 0, wa |-> 0, ox |-> x, oy |-> y, oz |-> 0, ovx |-> v, ovy |-> 0, oh |-> 1, dirty |-> {}, placed |-> TRUE, moving |-> FALSE]

Start(sc) == [ob |-> <<Object(1, 1, 1000 * M, -2 * M, sc.v0[1]), Object(2, 1, 2000 * M, 2 * M - 8 * M, sc.v0[2])>>, list |-> <<0, 1>>, cb |-> << >>, called |-> << >>, res |-> 0]

Exists(S, id) == id + 1 \in 1..Len(S.ob) /\ S.ob[id + 1].ex
Drop(q, id) == SelectSeq(q, LAMBDA e : e # id)
IdByName(S, n) == LET c == {k \in 1..Len(S.list) : S.ob[S.list[k] + 1].name = n} IN IF c = {} THEN -1 ELSE S.list[CHOOSE k \in c : \A m \in c : k <= m]

Put(o, x, y, z, h) == [o EXCEPT !.x = x, !.y = y, !.z = z, !.h = h, !.dirty = @ \cup {"long"}, !.placed = TRUE]

Report(o, op) ==
  CASE op.o = "pos" -> Put(o, op.x, op.y, 0, op.h)
    [] op.o = "posz" -> Put(o, op.x, op.y, op.z, op.h)
    [] op.o = "lane" -> Put(o, op.s, LaneY(op.lane, op.off), o.z, o.h)
    [] op.o = "lat" -> [o EXCEPT !.y = op.t]
    [] op.o = "latlane" -> [o EXCEPT !.y = LaneY(op.lane, op.off)]
    [] op.o = "speed" -> [o EXCEPT !.v = op.v, !.dirty = @ \cup {"speed"}]
    [] op.o = "vel" -> [o EXCEPT !.vx = op.vx, !.vy = op.vy, !.vz = op.vz, !.dirty = @ \cup {"vel"}]
    [] op.o = "acc" -> [o EXCEPT !.ax = op.ax, !.ay = op.ay, !.dirty = @ \cup {"acc"}]
    [] op.o = "rate" -> [o EXCEPT !.hr = op.hr, !.dirty = @ \cup {"rate"}]
    [] op.o = "wheel" -> [o EXCEPT !.wr = op.rot, !.wa = op.angle, !.dirty = @ \cup {"wheel"}]
    [] OTHER -> o

Wrap(d) == IF d > Turn \div 2 + 8 THEN d - Turn ELSE IF d < -(Turn \div 2) - 8 THEN d + Turn ELSE d
Div(n, dt) == IF n < 0 THEN -((-n * 16 + dt \div 2) \div dt) ELSE (n * 16 + dt \div 2) \div dt
Along(v, c) == SMulDiv(v, Abs(c), M) * Sign(c)

\* motion of an entity nobody else controls, before callbacks are called
Move(o, dt) == IF ~o.ext /\ "long" \notin o.dirty /\ o.v # 0 THEN [o EXCEPT !.x = @ + (o.v * dt) \div 16, !.dirty = @ \cup {"speed", "long"}] ELSE o
\* values that follow from the motion of the frame, unless reported; Pick takes the observed value if it agrees
Derive(o, dt, Pick(_, _, _)) ==
  LET x == Pick("x", o.x, Tol)  y == Pick("y", o.y, Tol)
      rep == "vel" \in o.dirty  tele == "tele" \in o.dirty
      vx == IF rep THEN o.vx ELSE IF dt = 0 \/ tele THEN Pick("vx", Along(o.v, Cosh[o.h]), HypTol(o.v, o.v)) ELSE Pick("vx", Div(x - o.ox, dt), 40)
      vy == IF rep THEN o.vy ELSE IF dt = 0 \/ tele THEN Pick("vy", Along(o.v, Sinh[o.h]), HypTol(o.v, o.v)) ELSE Pick("vy", Div(y - o.oy, dt), 40)
      vz == IF rep THEN o.vz ELSE IF dt = 0 \/ tele THEN 0 ELSE Pick("vz", Div(o.z - o.oz, dt), 40)
      v == IF dt = 0 \/ "speed" \in o.dirty THEN o.v ELSE Pick("v", Hyp(vx, vy), HypTol(vx, vy))
      d == Wrap(Ang[o.h] - Ang[o.oh])
      hr == IF dt = 0 \/ "rate" \in o.dirty THEN o.hr ELSE IF tele THEN Pick("hr", 0, 2000000000) ELSE
            IF Near(Abs(d), Turn \div 2, 8) /\ Near(Pick("hr", 0, 2000000000), -Div(d, dt), 40) THEN Pick("hr", 0, 2000000000) ELSE Pick("hr", Div(d, dt), 40)     \* half a turn: either way
      dist == Hyp(x - o.ox, y - o.oy)
  IN [o EXCEPT !.x = x, !.y = y, !.vx = vx, !.vy = vy, !.vz = vz, !.v = v, !.hr = hr,
               !.ax = IF dt = 0 \/ "acc" \in o.dirty THEN @ ELSE IF tele THEN Pick("ax", 0, 2000000000) ELSE Pick("ax", Div(vx - o.ovx, dt), 40),
               !.ay = IF dt = 0 \/ "acc" \in o.dirty THEN @ ELSE IF tele THEN Pick("ay", 0, 2000000000) ELSE Pick("ay", Div(vy - o.ovy, dt), 40),
               !.odo = IF tele THEN @ ELSE Pick("odo", @ + dist, HypTol(dist, 0)),
               !.wr = IF dt = 0 \/ "wheel" \in o.dirty \/ o.type # 1 THEN @ ELSE Pick("wr", 0, 2000000000),
               !.wa = IF dt = 0 \/ "wheel" \in o.dirty \/ o.type # 1 THEN @ ELSE Pick("wa", 0, 2000000000),
               !.ox = x, !.oy = y, !.oz = o.z, !.ovx = vx, !.ovy = vy, !.oh = o.h, !.dirty = {}]

Scenario(S, g) ==
  CASE g = 1 /\ 1 \in {S.list[k] : k \in 1..Len(S.list)} -> [S EXCEPT !.list = Drop(@, 1)]
    [] g = 2 /\ 1 \notin {S.list[k] : k \in 1..Len(S.list)} -> [S EXCEPT !.list = Append(@, 1), !.ob[2] = [Put(@, AddX, AddY, 0, 1) EXCEPT !.dirty = S.ob[2].dirty \cup {"tele"}]]     \* and drives on from there in the same frame
    [] OTHER -> S

Frame(S, op, Pick(_, _, _, _)) ==
  LET A == Scenario(S, op.g)
      act == {A.list[k] + 1 : k \in 1..Len(A.list)}
      B == [i \in DOMAIN A.ob |-> IF i \in act THEN Move(A.ob[i], op.dt) ELSE A.ob[i]]
      calls == SelectSeq(A.cb, LAMBDA c : A.ob[c.id + 1].ex)
      called == [k \in 1..(4 * Len(calls)) |-> LET c == calls[(k + 3) \div 4]  o == B[c.id + 1] IN CASE k % 4 = 1 -> c.tag [] k % 4 = 2 -> c.id [] k % 4 = 3 -> Pick(c.id, "x", o.x, Tol) [] OTHER -> o.v]
  IN [A EXCEPT !.ob = [i \in DOMAIN B |-> IF i \in act THEN Derive(B[i], op.dt, LAMBDA f, w, tol : Pick(i - 1, f, w, tol)) ELSE B[i]], !.called = called, !.res = 0]

Do(S, op, Pick(_, _, _, _)) ==
  LET Z == [S EXCEPT !.called = << >>, !.res = 0]
      R == [Z EXCEPT !.ob[op.id + 1] = Report(@, op)] IN
  CASE op.o = "init" -> Z
    [] op.o = "add" -> LET id == Len(Z.ob) IN
         [Z EXCEPT !.ob = Append(@, [Object(IF op.name = 0 THEN 10 + id ELSE op.name, op.type, 0, 0, 0) EXCEPT !.dirty = {"tele"}, !.placed = FALSE]), !.list = Append(@, id), !.res = id]
    [] op.o = "step" -> Frame(Z, op, Pick)
    [] op.o = "cb" -> [Z EXCEPT !.cb = Append(@, [id |-> op.id, tag |-> op.tag])]
    [] ~Exists(Z, op.id) -> [Z EXCEPT !.res = -1]
    [] op.o = "del" -> [Z EXCEPT !.list = Drop(@, op.id), !.ob[op.id + 1].ex = FALSE]
    [] op.o \in {"lane", "lat", "latlane"} -> LET i == op.id + 1 IN [R EXCEPT !.ob[i].y = Pick(op.id, "y", @, Tol), !.ob[i].x = Pick(op.id, "x", @, Tol)]
    [] OTHER -> R

Fields == <<"ex", "x", "y", "z", "hc", "hs", "v", "vx", "vy", "vz", "ax", "ay", "hr", "odo", "wr", "wa", "lane", "s", "name">>
FieldNo(f) == CHOOSE k \in 1..K : Fields[k] = f
Value(o, f, ob) ==
  CASE f = "ex" -> 1 [] f = "hc" -> Cosh[o.h] [] f = "hs" -> Sinh[o.h] [] f = "name" -> o.name
    [] f = "lane" -> IF o.placed THEN LaneOf(o.y) ELSE ob [] f = "s" -> IF o.placed THEN o.x ELSE ob [] OTHER -> o[f]

\* shown: result, number of objects, their ids, the state of every object that ever was (0s if deleted), id by name, calls of callbacks
Step(sc, S, op, ob) ==
  LET base == 2 + (IF Len(ob) > 1 THEN ob[2] ELSE 0)
      At(id, f) == LET p == base + id * K + FieldNo(f) IN IF 0 < p /\ p <= Len(ob) THEN ob[p] ELSE 0
      Pick(id, f, w, tol) == LET o == At(id, f) IN IF Near(o, w, tol) THEN o ELSE w
      D == Do(S, op, Pick)
      nob == Len(D.ob)
      Block(k) == LET id == (k - 1) \div K  f == Fields[((k - 1) % K) + 1] IN
                  IF ~D.ob[id + 1].ex THEN 0 ELSE LET w == Value(D.ob[id + 1], f, At(id, f)) IN IF f \in {"hc", "hs", "s"} THEN Pick(id, f, w, Tol) ELSE w
  IN [s |-> D, r |-> <<D.res, Len(D.list)>> \o D.list \o [k \in 1..(nob * K) |-> Block(k)] \o [n \in Names |-> IdByName(D, n)] \o D.called]
=============================================================================
