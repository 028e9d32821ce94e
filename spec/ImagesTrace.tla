----------------------------- MODULE ImagesTrace -----------------------------
EXTENDS Images, TraceJudge
=============================================================================
