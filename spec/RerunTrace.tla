----------------------------- MODULE RerunTrace ------------------------------
EXTENDS Rerun, TraceJudge
=============================================================================
