---------------------------- MODULE RecordTrace ----------------------------
EXTENDS Record, Replay
=============================================================================
