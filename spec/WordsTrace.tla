----------------------------- MODULE WordsTrace ------------------------------
EXTENDS Words, TraceJudge
=============================================================================
