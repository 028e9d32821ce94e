--------------------------- MODULE PageTreeTrace ---------------------------
EXTENDS PageTree, TraceJudge
=============================================================================
