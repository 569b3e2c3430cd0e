---- MODULE TrajTrace ----
EXTENDS Traj, Replay
====
