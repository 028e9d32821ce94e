----------------------------- MODULE LinksTrace ------------------------------
EXTENDS Links, TraceJudge
=============================================================================
