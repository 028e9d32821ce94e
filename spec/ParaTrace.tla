----------------------------- MODULE ParaTrace ------------------------------
EXTENDS Para, TraceJudge
=============================================================================
