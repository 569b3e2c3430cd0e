------------------------------- MODULE Replay -------------------------------
(* Generic trace validation.  A trace is [sc, ops, obs]: a configuration,    *)
(* the operations performed on esmini and what it returned or showed after   *)
(* each of them.  Start0(sc) is the specification's initial state and        *)
(* Step0(sc, S, op, ob) its next state and result, [s |-> .., r |-> ..];     *)
(* ob, the observation, may be used where the specification leaves a choice. *)
(* The run conforms iff r = ob for every operation.                          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Start0(_), Step0(_, _, _, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES i, k, S, ok
vars == <<i, k, S, ok>>

Init == i \in 1..Len(Traces) /\ k = 0 /\ S = Start0(Traces[i].sc) /\ ok = TRUE

Next == /\ ok
        /\ k < Len(Traces[i].ops)
        /\ LET T   == Traces[i]
               has == k + 1 <= Len(T.obs)
           IN \E e \in {Step0(T.sc, S, T.ops[k + 1], IF has THEN T.obs[k + 1] ELSE << >>)} :
              LET a == has /\ e.r = T.obs[k + 1] IN
              /\ S' = e.s
              /\ ok' = (a \/ ~PrintT("VF " \o ToJson(<<i, k + 1, e.r>>)))
        /\ k' = k + 1
        /\ i' = i

Spec == Init /\ [][Next]_vars
Conforms == ok
View == <<i, k, ok>>
=============================================================================
