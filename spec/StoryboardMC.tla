---------------------------- MODULE StoryboardMC ----------------------------
(* Exhaustive check of the storyboard guarantees on the specification.  The  *)
(* shapes (small storyboards) are data; the environment chooses, at every    *)
(* frame, the step length and the value of every variable it controls.       *)
(*                                                                           *)
(* The guarantees are stated over what an observer sees (the order of state  *)
(* change notifications) and over the element states at the end of a frame,  *)
(* in terms that do not mention how the engine computes them.                *)
EXTENDS Storyboard, TLC, Json, IOUtils

Shapes == JsonDeserialize(IOEnv.SHAPES)     \* [sc, frames, dts, dom]

VARIABLES n, S, G, f
vars == <<n, S, G, f>>

SC == Shapes[n].sc
N == Len(SC.el)
El(e) == SC.el[e]
Els == 1..N

RECURSIVE Anc(_, _)
Anc(sc, e) == IF sc.el[e].par = 0 THEN {} ELSE {sc.el[e].par} \cup Anc(sc, sc.el[e].par)
Desc(sc, e) == {d \in 1..Len(sc.el) : e \in Anc(sc, d)}

(***************************************************************************)
(* The observer.  o: last seen state; fresh: element may be executed anew  *)
(* because an enclosing event or group began another round; starts: starts *)
(* in the current round; bad: names of the guarantees seen violated        *)
(***************************************************************************)
G0(sc) == [ o |-> [e \in 1..Len(sc.el) |-> INIT], starts |-> [e \in 1..Len(sc.el) |-> 0],
            total |-> [e \in 1..Len(sc.el) |-> 0], bad |-> {},
            pst |-> [e \in 1..Len(sc.el) |-> INIT], pv |-> sc.var0, pt |-> 0, plog |-> << >>,
            \* raw value of each condition at the frames since its element became standby: <<time, value>>
            hv |-> [c \in 1..Len(sc.cond) |-> << >>],
            fired |-> {}, waits |-> {}, murky |-> {}, pmurky |-> {}, ever |-> [e \in 1..Len(sc.el) |-> [s \in 0..3 |-> FALSE]] ]

HasStop(sc) == \E e \in 1..Len(sc.el) : sc.el[e].sp # 0

MoveOk(ty, old, new) ==
  \/ old = INIT    /\ new \in {STANDBY, RUNNING}
  \/ old = STANDBY /\ new \in {RUNNING, COMPLETE}
  \/ old = RUNNING /\ new = COMPLETE
  \/ old = RUNNING /\ new = STANDBY /\ ty \in {4, 6}

See(sc, g, x, new) ==
  LET el  == sc.el[x]
      old == g.o[x]
      sibs == IF el.ty = 6 THEN {sc.el[el.par].ch[i] : i \in 1..Len(sc.el[el.par].ch)} \ {x} ELSE {}
      st  == IF new = RUNNING THEN g.starts[x] + 1 ELSE g.starts[x]
      again == new = STANDBY /\ old = RUNNING
      b   == (IF MoveOk(el.ty, old, new) THEN {} ELSE {"move"})
        \cup (IF new = RUNNING /\ el.par # 0 /\ g.o[el.par] # RUNNING THEN {"nesting"} ELSE {})
        \cup (IF new = RUNNING /\ el.ty = 6 /\ el.prio = "o" /\ \E s \in sibs : g.o[s] = RUNNING THEN {"override"} ELSE {})
        \cup (IF new = RUNNING /\ el.ty = 6 /\ el.prio = "s" /\ \E s \in sibs : g.o[s] = RUNNING THEN {"skip"} ELSE {})
        \cup (IF el.ty \in {4, 6} /\ el.max # -1 /\ st > el.max THEN {"toomany"} ELSE {})
        \cup (IF el.ty \in {4, 6} /\ again /\ el.max # -1 /\ st >= el.max THEN {"again"} ELSE {})
        \cup (IF el.ty \in {4, 6} /\ new = COMPLETE /\ ~HasStop(sc) /\ st # el.max THEN {"toofew"} ELSE {})
        \cup (IF el.ty \notin {4, 6, 7} /\ g.total[x] > 0 /\ new = RUNNING
                 /\ ~(\E a \in Anc(sc, x) : sc.el[a].ty = 4) THEN {"rerun"} ELSE {})
      ds  == IF again THEN Desc(sc, x) ELSE {}
  IN [g EXCEPT !.o = [e \in DOMAIN @ |-> IF e \in ds THEN INIT ELSE IF e = x THEN new ELSE @[e]],
               !.starts = [e \in DOMAIN @ |-> IF e \in ds THEN 0 ELSE IF e = x THEN st ELSE @[e]],
               !.total[x] = IF new = RUNNING THEN @ + 1 ELSE @,
               !.ever[x][new] = TRUE,
               !.bad = @ \cup b]

RECURSIVE Watch(_, _, _, _)
Watch(sc, g, log, i) == IF i > Len(log) THEN g
                        ELSE Watch(sc, IF log[i][1] = "e" THEN See(sc, g, log[i][2], log[i][3]) ELSE g, log, i + 1)

(***************************************************************************)
(* What a start trigger made of one plain (variable or time) condition     *)
(* means, stated over the raw truth values since its element went standby. *)
(***************************************************************************)
EdgeAt(ed, h, i) == CASE ed = "none" -> h[i][2]
                      [] ed = "rising" -> i > 1 /\ h[i][2] /\ ~h[i-1][2]
                      [] ed = "falling" -> i > 1 /\ ~h[i][2] /\ h[i-1][2]
                      [] ed = "both" -> i > 1 /\ h[i][2] # h[i-1][2]
Means(d, h) ==
  LET now == Len(h)
      \* of several looks at the same time the last one counts
      due == {i \in 1..now : h[i][1] + d.delay <= h[now][1] /\ ~\E j \in (i+1)..now : h[j][1] = h[i][1]}
      newdue == {i \in due : now = 1 \/ h[i][1] + d.delay > h[now - 1][1]}
      last == CHOOSE i \in due : \A j \in due : j <= i
  IN due # {} /\ (IF newdue # {} THEN \E i \in newdue : EdgeAt(d.edge, h, i) ELSE EdgeAt(d.edge, h, last))

Simple(sc, e) == /\ sc.el[e].ty = 6 /\ sc.el[e].prio = "p" /\ sc.el[e].st # 0
                 /\ Len(sc.trig[sc.el[e].st].g) = 1 /\ Len(sc.trig[sc.el[e].st].g[1]) = 1
                 /\ sc.cond[sc.trig[sc.el[e].st].g[1][1]].k \in {"var", "time"}
CondOf(sc, e) == sc.trig[sc.el[e].st].g[1][1]

NoVarActions(sc) == \A e \in 1..Len(sc.el) : sc.el[e].ak \notin {"set", "add", "mul"}

(***************************************************************************)
(* Behaviour                                                               *)
(***************************************************************************)
Init == /\ n \in 1..Len(Shapes) /\ f = 0
        /\ S = InitS(Shapes[n].sc) /\ G = G0(Shapes[n].sc)

Step(vs, dt) ==
 LET A == [S EXCEPT !.vars = vs, !.log = << >>] IN
 \E B \in {Frame(SC, A, dt, f = 0)} :
 \E g \in {Watch(SC, G, B.log, 1)} :
  \* the elements that wait for their trigger in this frame: standby before it, or made so on the way down
 \E waits \in {{e \in Els : S.st[e] = STANDBY \/ (S.st[e] = INIT /\ \E i \in 1..Len(B.log) : B.log[i] = <<"e", e, STANDBY>>)}} :
  \* the raw values of plain conditions of elements that wait in this frame
 \E hv2 \in {[c \in DOMAIN G.hv |->
               LET ow == {e \in Els : Simple(SC, e) /\ CondOf(SC, e) = c} IN
               IF ow = {} THEN << >>
               ELSE LET e == CHOOSE e \in ow : TRUE IN
                    IF e \in waits THEN Append(G.hv[c], <<S.time, Raw(SC, A, c)>>) ELSE << >>]} :
 \E fired2 \in {{e \in waits : Simple(SC, e) /\ Means(SC.cond[CondOf(SC, e)], hv2[CondOf(SC, e)])}} :
  \* events ended by another one while triggers are being evaluated: whether they are looked at again in this frame depends on the order
 \E early \in {IF f = 0 THEN {} ELSE LET l == EvalTriggers(SC, A, 1).log IN {e \in Els : S.st[e] = RUNNING /\ El(e).ty = 6 /\ \E i \in 1..Len(l) : l[i] = <<"e", e, STANDBY>>}} :
     /\ S' = B
     /\ G' = [g EXCEPT !.pmurky = G.murky \cup early, !.murky = {e \in @ \cup early : ~\E i \in 1..Len(B.log) : B.log[i] = <<"e", e, RUNNING>>}, !.pst = S.st, !.pv = vs, !.pt = S.time, !.plog = B.log, !.fired = fired2, !.waits = waits,
                       !.hv = [c \in DOMAIN hv2 |-> IF \E e \in fired2 : CondOf(SC, e) = c THEN << >> ELSE hv2[c]]]

Next == /\ f < Shapes[n].frames
        /\ \E vs \in [1..Len(SC.var0) -> IF f = 0 THEN {SC.var0[1]} ELSE {Shapes[n].dom[i] : i \in 1..Len(Shapes[n].dom)}],
              dt \in (IF f = 0 THEN {0} ELSE {Shapes[n].dts[i] : i \in 1..Len(Shapes[n].dts)}) :
              Step(IF f = 0 THEN SC.var0 ELSE vs, dt)
        /\ f' = f + 1 /\ n' = n

Spec == Init /\ [][Next]_vars

View == <<n, f, [S EXCEPT !.log = << >>], G>>

(***************************************************************************)
(* Guarantees                                                              *)
(***************************************************************************)
\* P01 life cycle
LegalMoves == "move" \notin G.bad /\ "rerun" \notin G.bad
NestedStart == "nesting" \notin G.bad
Nesting == \A e \in Els : S.st[e] = RUNNING /\ El(e).par # 0 => S.st[El(e).par] = RUNNING
CompleteAll == \A e \in Els : El(e).ty \in 2..6 /\ El(e).ch # << >> /\ S.st[e] # COMPLETE
                 => \E i \in 1..Len(El(e).ch) : S.st[El(e).ch[i]] # COMPLETE
CompleteQuiet == \A e \in Els : S.st[e] = COMPLETE => \A d \in Desc(SC, e) : S.st[d] # RUNNING
\* P02 priority
Override == "override" \notin G.bad
Skip == "skip" \notin G.bad
\* P03 executions
NotTooMany == "toomany" \notin G.bad
NotAgain == "again" \notin G.bad
NotTooFew == "toofew" \notin G.bad
\* P04 triggers: in storyboards without variable actions, a waiting event with a one-condition
\* trigger starts in a frame exactly when the trigger's meaning holds then
Triggers == NoVarActions(SC) /\ ~HasStop(SC) => \A e \in Els : Simple(SC, e) /\ e \in G.waits \ G.pmurky /\ S.st[1] = RUNNING =>
               (e \in G.fired) = (\E i \in 1..Len(G.plog) : G.plog[i] = <<"e", e, RUNNING>>)
\* P05 stop triggers (plain conditions)
PlainStop(e) == /\ El(e).sp # 0 /\ SC.trig[El(e).sp].g # << >>
                /\ \A c \in CondsOf(SC, El(e).sp) : SC.cond[c].k = "var" /\ SC.cond[c].edge = "none" /\ SC.cond[c].delay = 0
StopHolds(e, vs) == LET g == SC.trig[El(e).sp].g IN
   \E i \in 1..Len(g) : g[i] # << >> /\ \A j \in 1..Len(g[i]) : Rule(SC.cond[g[i][j]].rule, vs[SC.cond[g[i][j]].v], SC.cond[g[i][j]].val)
Stops == NoVarActions(SC) => \A e \in Els : PlainStop(e) /\ G.pst[e] = RUNNING =>
            /\ StopHolds(e, G.pv) => S.st[e] = COMPLETE /\ \A d \in Desc(SC, e) : S.st[d] \in {INIT, COMPLETE}
\* (actions of the Init section are no part of the stopped tree)
StopFinal == S.st[1] = COMPLETE /\ G.pst[1] = COMPLETE =>
               S.time = G.pt /\ \A i \in 1..Len(G.plog) : G.plog[i][1] = "e" /\ El(G.plog[i][2]).par = 0
NoStopNoEnd == SC.el[1].sp = 0 /\ f > 0 => S.st[1] = RUNNING
\* P06 an event that waits for a state or a transition of another element (one undelayed, edgeless
\* condition) starts only if that element showed it since the condition was last looked at, or is in it
StateTrig(e) == /\ El(e).ty = 6 /\ El(e).st # 0 /\ Len(SC.trig[El(e).st].g) = 1 /\ Len(SC.trig[El(e).st].g[1]) = 1
                /\ LET c == SC.cond[CondOf(SC, e)] IN c.k = "state" /\ c.edge = "none" /\ c.delay = 0
StateOf(ts) == CASE ts = "standbyState" -> STANDBY [] ts = "runningState" -> RUNNING [] ts = "completeState" -> COMPLETE [] OTHER -> -1
StateCond == \A e \in Els : StateTrig(e) /\ (\E i \in 1..Len(G.plog) : G.plog[i] = <<"e", e, RUNNING>>) =>
     LET c == SC.cond[CondOf(SC, e)] x == c.e IN
     CASE c.ts \in {"standbyState", "runningState", "completeState"} -> G.ever[x][StateOf(c.ts)]
       [] c.ts = "startTransition" -> G.ever[x][RUNNING]
       [] c.ts \in {"endTransition", "stopTransition"} -> G.ever[x][COMPLETE] \/ G.ever[x][STANDBY]
       [] OTHER -> FALSE
\* P07 one running action per object and domain
Exclusive == \A a, b \in Els : a # b /\ El(a).ty = 7 /\ El(b).ty = 7 /\ IsPrivate(SC, a) /\ IsPrivate(SC, b)
                /\ El(a).obj = El(b).obj /\ Overlap(El(a).dom, El(b).dom) => ~(S.st[a] = RUNNING /\ S.st[b] = RUNNING)
\* P08 time
TimeOk == f > 1 => S.time = G.pt \/ S.time > G.pt
=============================================================================
