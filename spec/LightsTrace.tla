---- MODULE LightsTrace ----
EXTENDS Lights, Replay
====
