------------------------------ MODULE GfxTrace ------------------------------
EXTENDS Gfx, TraceJudge
=============================================================================
