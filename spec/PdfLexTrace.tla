---------------------------- MODULE PdfLexTrace ----------------------------
EXTENDS PdfLex, TraceJudge
=============================================================================
