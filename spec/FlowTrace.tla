------------------------------ MODULE FlowTrace ------------------------------
EXTENDS Flow, TraceJudge
=============================================================================
