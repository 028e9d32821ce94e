------------------------------- MODULE DocTrace -------------------------------
EXTENDS Doc, TraceJudge
=============================================================================
