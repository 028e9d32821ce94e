----------------------------- MODULE CallsTrace -----------------------------
EXTENDS Calls, TraceJudge
=============================================================================
