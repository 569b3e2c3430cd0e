----------------------------- MODULE DistTrace -----------------------------
EXTENDS Dist, Replay
=============================================================================
