---- MODULE RoadPosTrace ----
EXTENDS RoadPos, Replay
====
