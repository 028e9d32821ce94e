------------------------------ MODULE NotesTrace ------------------------------
EXTENDS Notes, TraceJudge
=============================================================================
