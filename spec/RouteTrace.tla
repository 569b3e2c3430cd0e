---- MODULE RouteTrace ----
EXTENDS Route, Replay
====
