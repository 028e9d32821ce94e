---------------------------- MODULE ProgressTrace ----------------------------
EXTENDS Progress, TraceJudge
=============================================================================
