---- MODULE ValuesTrace ----
EXTENDS Values, Replay
====
