---- MODULE CondTrace ----
EXTENDS Cond, Replay
====
