---- MODULE InjectTrace ----
EXTENDS Inject, Replay
====
