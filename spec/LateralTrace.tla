---- MODULE LateralTrace ----
EXTENDS Lateral, Replay
====
