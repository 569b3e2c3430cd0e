---------------------------- MODULE SessionTrace ----------------------------
EXTENDS Session, Replay
=============================================================================
