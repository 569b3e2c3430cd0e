---- MODULE RegistryTrace ----
EXTENDS Registry, Replay
====
