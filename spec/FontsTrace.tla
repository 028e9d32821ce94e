----------------------------- MODULE FontsTrace -----------------------------
EXTENDS Fonts, TraceJudge
=============================================================================
