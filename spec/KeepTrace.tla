---- MODULE KeepTrace ----
EXTENDS Keep, Replay
====
