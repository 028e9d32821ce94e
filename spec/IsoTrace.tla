------------------------------ MODULE IsoTrace ------------------------------
EXTENDS Iso, TraceJudge
=============================================================================
