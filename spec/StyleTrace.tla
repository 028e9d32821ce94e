----------------------------- MODULE StyleTrace -----------------------------
EXTENDS Style, TraceJudge
=============================================================================
