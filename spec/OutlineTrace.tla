---------------------------- MODULE OutlineTrace ----------------------------
EXTENDS Outline, TraceJudge
=============================================================================
