---- MODULE ControlTrace ----
EXTENDS Control, Replay
====
