---- MODULE CurveTrace ----
EXTENDS Curve, Replay
====
