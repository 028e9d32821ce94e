----------------------------- MODULE DestsTrace -----------------------------
EXTENDS Dests, TraceJudge
=============================================================================
