---- MODULE ParamsTrace ----
EXTENDS Params, Replay
====
