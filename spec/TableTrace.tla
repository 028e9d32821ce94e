------------------------------ MODULE TableTrace ------------------------------
EXTENDS Table, TraceJudge
=============================================================================
