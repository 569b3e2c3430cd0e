----------------------------- MODULE Storyboard -----------------------------
(***************************************************************************)
(* The storyboard engine of esmini: the tree of storyboard elements, their *)
(* life cycle, triggers, conditions, event priorities, execution counts,   *)
(* private-action domains and stop triggers.                               *)
(*                                                                         *)
(* A scenario is data (record SC): it is read from JSON by the trace       *)
(* specification and written out literally by the model-checking modules.  *)
(* The engine's frame is the transition  Frame(SC, S, dt): one evaluation  *)
(* of all triggers in document order followed by one step of every running *)
(* action, then the advance of simulation time.                            *)
(*                                                                         *)
(* SC.el   : sequence of elements                                          *)
(*   [ty, par, ch, max, prio, st, sp, ak, obj, dom, dur, v, x, lab]        *)
(*   ty  1 storyboard 2 story 3 act 4 group 5 maneuver 6 event 7 action    *)
(*   par parent index (0: none); ch sequence of children                   *)
(*   max maximum executions (-1: unbounded); prio "o" | "s" | "p"          *)
(*   st/sp index of start/stop trigger (0: none)                           *)
(*   ak  action kind: "set" "add" "mul" (variable actions), "user" (runs   *)
(*       until ended), "timed" (private, duration dur time units, domain   *)
(*       mask dom on object obj), "inst" (private, ends in its first step),*)
(*       "lat" (private lateral move to offset x in dur units)             *)
(* SC.init : sequence of Init action elements, in execution order          *)
(* SC.trig : [def, g]   g: sequence of groups, group: sequence of conds    *)
(* SC.cond : [k, edge, delay, v, rule, val, e, ts]                         *)
(*   k "var" | "time" | "state"                                            *)
(* SC.var0 : initial values of the (integer) variables                     *)
(*                                                                         *)
(* S (state):                                                              *)
(*   st   state of each element 0 init 1 standby 2 running 3 complete      *)
(*   ne   number of executions of each element                             *)
(*   par  elapsed transition time of each (timed) action                   *)
(*   cd   per condition [last, ev, hist, idx, val, pend, ls]               *)
(*   vars variable values, time, off (lateral target held by an object)    *)
(*   log  what an observer is told, in order: <<"e", label, state>> and    *)
(*        <<"c", condition>>                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

INIT == 0  STANDBY == 1  RUNNING == 2  COMPLETE == 3  UNDEF == 4

Bits(m) == [long |-> m % 2 = 1, lat |-> (m \div 2) % 2 = 1]
Overlap(a, b) == (a % 2 = 1 /\ b % 2 = 1) \/ ((a \div 2) % 2 = 1 /\ (b \div 2) % 2 = 1)

InitS(SC) ==
  [ st   |-> [e \in 1..Len(SC.el) |-> INIT],
    ne   |-> [e \in 1..Len(SC.el) |-> 0],
    par  |-> [e \in 1..Len(SC.el) |-> 0],
    cd   |-> [c \in 1..Len(SC.cond) |->
                [last |-> FALSE, ev |-> FALSE, hist |-> << >>, idx |-> 1, val |-> FALSE,
                 pend |-> << >>, ls |-> UNDEF]],
    vars |-> SC.var0,
    off  |-> [o \in 1..SC.nobj |-> 0],
    time |-> 0,
    log  |-> << >> ]

(***************************************************************************)
(* State changes: reported to the observer, and to every condition that    *)
(* watches the element.                                                    *)
(***************************************************************************)
SetState(SC, S, e, new, tr) ==
  IF S.st[e] = new THEN S
  ELSE [S EXCEPT !.st[e] = new,
                 !.log = Append(@, <<"e", SC.el[e].lab, new>>),
                 !.cd = [c \in DOMAIN @ |-> IF SC.cond[c].k = "state" /\ SC.cond[c].e = e
                                            THEN [@[c] EXCEPT !.pend = Append(@, <<new, tr>>)] ELSE @[c]]]

(***************************************************************************)
(* Conditions                                                              *)
(***************************************************************************)
Rule(r, a, b) == CASE r = "gt" -> a > b [] r = "ge" -> a >= b [] r = "lt" -> a < b
                   [] r = "le" -> a <= b [] r = "eq" -> a = b [] r = "ne" -> a # b

StateMatch(ts, s, tr) == CASE ts = "standbyState"    -> s = STANDBY
                           [] ts = "runningState"    -> s = RUNNING
                           [] ts = "completeState"   -> s = COMPLETE
                           [] ts = "startTransition" -> tr = "start"
                           [] ts = "endTransition"   -> tr = "end"
                           [] ts = "stopTransition"  -> tr = "stop"
                           [] OTHER -> FALSE

\* raw truth value of a condition at the current time
Raw(SC, S, c) ==
  LET d == SC.cond[c] k == S.cd[c] IN
  CASE d.k = "var"   -> Rule(d.rule, S.vars[d.v], d.val)
    [] d.k = "time"  -> Rule(d.rule, S.time, d.val)
    [] d.k = "state" -> IF k.pend = << >> THEN StateMatch(d.ts, k.ls, "none")
                        ELSE \E i \in 1..Len(k.pend) : StateMatch(d.ts, k.pend[i][1], k.pend[i][2])

Edge(ed, new, old, ev) ==
  CASE ed = "none"    -> new
    [] ed = "rising"  -> ev /\ new /\ ~old
    [] ed = "falling" -> ev /\ ~new /\ old
    [] ed = "both"    -> ev /\ new # old

\* The value history: a change is recorded with its time stamp; a second value at
\* the same time stamp replaces the first.
Register(h, t, v) ==
  IF h = << >> THEN << <<t, v>> >>
  ELSE LET b == h[Len(h)] IN
       IF b[1] = t
       THEN IF b[2] = v THEN h
            ELSE IF Len(h) = 1 THEN << <<t, v>> >> ELSE SubSeq(h, 1, Len(h) - 1)
       ELSE IF b[2] = v THEN h ELSE Append(h, <<t, v>>)

\* value "delay" ago: true if it was true at some recorded instant since the last look
Delayed(h, idx, t) ==
  IF h = << >> THEN [v |-> FALSE, idx |-> idx]
  ELSE IF idx > Len(h) THEN [v |-> h[Len(h)][2], idx |-> idx]
  ELSE IF t >= h[idx][1]
       THEN LET n == Cardinality({i \in idx..Len(h) : h[i][1] <= t})
            IN [v |-> \E i \in idx..(idx + n - 1) : h[i][2], idx |-> idx + n]
  ELSE IF idx > 1 THEN [v |-> h[idx - 1][2], idx |-> idx]
  ELSE [v |-> FALSE, idx |-> idx]

EvalCond(SC, S, c) ==
  LET k    == S.cd[c]
      d    == SC.cond[c]
      raw  == Raw(SC, S, c)
      cur  == Edge(d.edge, raw, k.last, k.ev)
      h    == Register(k.hist, S.time, cur)
      dv   == Delayed(h, k.idx, S.time - d.delay)
      ls   == IF k.pend = << >> THEN k.ls ELSE k.pend[Len(k.pend)][1]
  IN [v |-> dv.v,
      S |-> [S EXCEPT !.cd[c] = [last |-> raw, ev |-> TRUE, hist |-> h, idx |-> dv.idx,
                                 val |-> dv.v, pend |-> << >>, ls |-> ls],
                      !.log = IF dv.v /\ ~k.val THEN Append(@, <<"c", c, S.time>>) ELSE @]]

RECURSIVE EvalGroup(_, _, _, _, _)
EvalGroup(SC, S, g, i, acc) ==
  IF i > Len(g) THEN [v |-> acc, S |-> S]
  ELSE IF acc \/ SC.cond[g[i]].delay > 0
       THEN LET r == EvalCond(SC, S, g[i]) IN EvalGroup(SC, r.S, g, i + 1, acc /\ r.v)
       ELSE EvalGroup(SC, S, g, i + 1, acc)

RECURSIVE EvalGroups(_, _, _, _, _)
EvalGroups(SC, S, gs, i, acc) ==
  IF i > Len(gs) THEN [v |-> acc, S |-> S]
  ELSE LET r == IF gs[i] = << >> THEN [v |-> FALSE, S |-> S] ELSE EvalGroup(SC, S, gs[i], 1, TRUE)
       IN EvalGroups(SC, r.S, gs, i + 1, acc \/ r.v)

CondsOf(SC, t) == UNION {{SC.trig[t].g[i][j] : j \in 1..Len(SC.trig[t].g[i])} : i \in 1..Len(SC.trig[t].g)}

EvalTrigger(SC, S, t) ==
  LET T == SC.trig[t] IN
  IF T.g = << >> THEN [v |-> T.def, S |-> S]
  ELSE LET r == EvalGroups(SC, S, T.g, 1, FALSE)
           cs == CondsOf(SC, t)
       IN IF ~r.v THEN r
          ELSE [v |-> TRUE, S |-> [r.S EXCEPT !.cd = [c \in DOMAIN @ |->
                 IF c \in cs THEN [@[c] EXCEPT !.ev = FALSE] ELSE @[c]]]]

ResetTrigger(SC, S, t) ==
  IF t = 0 THEN S
  ELSE LET cs == CondsOf(SC, t) IN
       [S EXCEPT !.cd = [c \in DOMAIN @ |-> IF c \in cs
           THEN [@[c] EXCEPT !.hist = << >>, !.idx = 1, !.val = FALSE, !.pend = << >>] ELSE @[c]]]

(***************************************************************************)
(* Life cycle                                                              *)
(***************************************************************************)
RECURSIVE Reset(_, _, _), ResetAll(_, _, _, _)
Reset(SC, S, e) ==
  LET S1 == ResetAll(SC, S, SC.el[e].ch, 1)
      S2 == [S1 EXCEPT !.st[e] = INIT, !.ne[e] = 0]
  IN ResetTrigger(SC, ResetTrigger(SC, S2, SC.el[e].st), SC.el[e].sp)
ResetAll(SC, S, ch, i) == IF i > Len(ch) THEN S ELSE ResetAll(SC, Reset(SC, S, ch[i]), ch, i + 1)

AllChildrenComplete(SC, S, e) == \A i \in 1..Len(SC.el[e].ch) : S.st[SC.el[e].ch[i]] = COMPLETE
AnyChildRunning(SC, S, e)     == \E i \in 1..Len(SC.el[e].ch) : S.st[SC.el[e].ch[i]] = RUNNING

RECURSIVE End(_, _, _), EndRunning(_, _, _, _), Propagate(_, _, _)
\* a child changed: a parent whose children are all complete ends itself
Propagate(SC, S, e) ==
  IF e = 0 THEN S
  ELSE IF SC.el[e].ty # 1 /\ S.st[e] # COMPLETE /\ AllChildrenComplete(SC, S, e) THEN End(SC, S, e) ELSE S

EndRunning(SC, S, ch, i) ==
  IF i > Len(ch) THEN S
  ELSE EndRunning(SC, IF S.st[ch[i]] = RUNNING THEN End(SC, S, ch[i]) ELSE S, ch, i + 1)

End(SC, S, e) ==
  IF S.st[e] = COMPLETE THEN S
  ELSE LET S1 == EndRunning(SC, S, SC.el[e].ch, 1) IN
       IF S1.st[e] = COMPLETE THEN S1
       ELSE LET S2 ==
              IF S1.st[e] \in {RUNNING, STANDBY}
              THEN IF SC.el[e].ty \in {4, 6}
                   THEN IF SC.el[e].max # -1 /\ S1.ne[e] >= SC.el[e].max
                        THEN SetState(SC, S1, e, COMPLETE, "end")
                        ELSE LET A == ResetTrigger(SC, ResetTrigger(SC, S1, SC.el[e].st), SC.el[e].sp)
                                 B == SetState(SC, A, e, STANDBY, "end")
                             IN ResetAll(SC, B, SC.el[e].ch, 1)
                   ELSE SetState(SC, S1, e, COMPLETE, "end")
              ELSE S1
            IN Propagate(SC, S2, SC.el[e].par)

RECURSIVE Stop(_, _, _), StopAll(_, _, _, _)
StopAll(SC, S, ch, i) == IF i > Len(ch) THEN S ELSE StopAll(SC, Stop(SC, S, ch[i]), ch, i + 1)
Stop(SC, S, e) ==
  LET S1 == StopAll(SC, S, SC.el[e].ch, 1) IN
  IF S1.st[e] \in {INIT, COMPLETE} THEN S1
  ELSE Propagate(SC, SetState(SC, S1, e, COMPLETE, "stop"), SC.el[e].par)

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
IsPrivate(SC, e) == SC.el[e].ak \in {"timed", "inst", "lat"}

ActionStart(SC, S, e) ==
  LET a == SC.el[e]
      Eff == CASE a.ak = "set" -> [S EXCEPT !.vars[a.v] = a.x]
               [] a.ak = "add" -> [S EXCEPT !.vars[a.v] = @ + a.x]
               [] a.ak = "mul" -> [S EXCEPT !.vars[a.v] = @ * a.x]
               [] a.ak = "inst" -> [S EXCEPT !.off[a.obj] = 0]   \* teleported to the lane centre
               [] OTHER -> S
      ok == S.st[e] \in {INIT, STANDBY} \/ S.ne[e] > 0
      S1 == IF ok THEN LET B == SetState(SC, Eff, e, RUNNING, "start") IN [B EXCEPT !.ne[e] = @ + 1] ELSE Eff
  IN [S1 EXCEPT !.par[e] = 0]

\* One step of a running action
ActionStep(SC, S, e, dt) ==
  LET a == SC.el[e] IN
  CASE a.ak \in {"set", "add", "mul"} -> Stop(SC, S, e)
    [] a.ak = "user" -> S
    [] a.ak = "inst" -> End(SC, S, e)
    [] a.ak = "timed" -> LET p == S.par[e] + dt
                             S1 == [S EXCEPT !.par[e] = p]
                         IN IF p >= a.dur THEN End(SC, S1, e) ELSE S1
    [] a.ak = "lat" -> LET p  == S.par[e] + dt
                           there == S.off[a.obj] = a.x
                           S1 == [S EXCEPT !.par[e] = p, !.off[a.obj] = IF there \/ p >= a.dur THEN a.x ELSE -1]
                       IN IF there \/ p >= a.dur THEN End(SC, S1, e) ELSE S1

(***************************************************************************)
(* Private actions: at most one running action per object and domain; the  *)
(* newest wins.                                                            *)
(***************************************************************************)
RECURSIVE EndConflicts(_, _, _, _, _)
EndConflicts(SC, S, list, i, e) ==
  IF i > Len(list) THEN S
  ELSE LET f == list[i] IN
       EndConflicts(SC, IF f # e /\ IsPrivate(SC, f) /\ SC.el[f].obj = SC.el[e].obj
                           /\ S.st[f] = RUNNING /\ Overlap(SC.el[f].dom, SC.el[e].dom)
                        THEN End(SC, S, f) ELSE S, list, i + 1, e)

RECURSIVE StartActions(_, _, _, _)
StartActions(SC, S, ch, i) ==
  IF i > Len(ch) THEN S
  ELSE LET e == ch[i]
           A == IF IsPrivate(SC, e)
                THEN EndConflicts(SC, EndConflicts(SC, S, SC.init, 1, e), SC.acts, 1, e) ELSE S
       IN StartActions(SC, ActionStart(SC, A, e), ch, i + 1)

(***************************************************************************)
(* Start                                                                   *)
(***************************************************************************)
RECURSIVE EndOthers(_, _, _, _, _)
EndOthers(SC, S, ch, i, e) ==
  IF i > Len(ch) THEN S
  ELSE EndOthers(SC, IF ch[i] # e /\ S.st[ch[i]] = RUNNING THEN End(SC, S, ch[i]) ELSE S, ch, i + 1, e)

RECURSIVE Start(_, _, _), StartAll(_, _, _, _)
StartAll(SC, S, ch, i) == IF i > Len(ch) THEN S ELSE StartAll(SC, Start(SC, S, ch[i]), ch, i + 1)

BaseStart(SC, S, e) ==
  IF S.st[e] = INIT /\ SC.el[e].st # 0 THEN SetState(SC, S, e, STANDBY, "toStandby")
  ELSE IF S.st[e] = INIT \/ S.st[e] = STANDBY \/ S.ne[e] > 0
       THEN LET B == SetState(SC, S, e, RUNNING, "start") IN [B EXCEPT !.ne[e] = @ + 1]
       ELSE S

Start(SC, S, e) ==
  CASE SC.el[e].ty = 7 -> ActionStart(SC, S, e)
    [] SC.el[e].ty = 6 ->
         LET sib == SC.el[SC.el[e].par].ch
             pr  == SC.el[e].prio
             go  == IF pr = "s" THEN ~AnyChildRunning(SC, S, SC.el[e].par) ELSE S.st[e] # RUNNING
             A   == IF pr = "o" THEN EndOthers(SC, S, sib, 1, e) ELSE S
             B   == BaseStart(SC, A, e)
         IN IF ~go THEN S
            ELSE IF B.st[e] # RUNNING THEN B
            ELSE IF SC.el[e].ch = << >> THEN End(SC, B, e)
            ELSE StartActions(SC, B, SC.el[e].ch, 1)
    [] OTHER -> LET B == BaseStart(SC, S, e)
                IN IF B.st[e] = RUNNING THEN StartAll(SC, B, SC.el[e].ch, 1) ELSE B

(***************************************************************************)
(* One frame                                                               *)
(***************************************************************************)
RECURSIVE EvalTriggers(_, _, _), EvalAll(_, _, _, _)
EvalAll(SC, S, ch, i) == IF i > Len(ch) THEN S ELSE EvalAll(SC, EvalTriggers(SC, S, ch[i]), ch, i + 1)
EvalTriggers(SC, S, e) ==
  LET el == SC.el[e]
      S1 == IF S.st[e] = RUNNING /\ el.sp # 0
            THEN LET r == EvalTrigger(SC, S, el.sp) IN IF r.v THEN Stop(SC, r.S, e) ELSE r.S
            ELSE S
      S2 == IF S1.st[e] = STANDBY
            THEN IF el.st = 0 THEN Start(SC, S1, e)
                 ELSE LET r == EvalTrigger(SC, S1, el.st) IN IF r.v THEN Start(SC, r.S, e) ELSE r.S
            ELSE S1
  IN IF S2.st[e] = RUNNING THEN EvalAll(SC, S2, el.ch, 1) ELSE S2

RECURSIVE StepEl(_, _, _, _), StepAll(_, _, _, _, _)
StepAll(SC, S, ch, i, dt) == IF i > Len(ch) THEN S ELSE StepAll(SC, StepEl(SC, S, ch[i], dt), ch, i + 1, dt)
StepEl(SC, S, e, dt) ==
  CASE SC.el[e].ty = 7 -> IF S.st[e] = RUNNING THEN ActionStep(SC, S, e, dt) ELSE S
    \* an event steps those of its actions that are running, whatever its own state
    [] SC.el[e].ty = 6 -> StepAll(SC, S, SC.el[e].ch, 1, dt)
    [] OTHER -> IF S.st[e] = RUNNING THEN StepAll(SC, S, SC.el[e].ch, 1, dt) ELSE S

BoardStart(SC, S) ==
  LET A == StartAll(SC, S, SC.init, 1) IN Start(SC, A, 1)

BoardStep(SC, S, dt) ==
  LET A == EvalTriggers(SC, S, 1)
      B == StepAll(SC, A, SC.init, 1, dt)
  IN StepEl(SC, B, 1, dt)

\* first: the initialisation frame, which starts the storyboard
Frame(SC, S, dt, first) ==
  LET A == IF first THEN BoardStart(SC, S) ELSE S
      B == BoardStep(SC, A, dt)
  IN IF B.st[1] = RUNNING THEN [B EXCEPT !.time = @ + dt] ELSE B
=============================================================================
