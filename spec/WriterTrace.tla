---------------------------- MODULE WriterTrace ----------------------------
EXTENDS Writer, TraceCheck
=============================================================================
