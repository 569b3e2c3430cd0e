---- MODULE MotionTrace ----
EXTENDS Motion, Replay
====
