---------------------------- MODULE PdfFileTrace ----------------------------
EXTENDS PdfFile, TraceJudge
=============================================================================
