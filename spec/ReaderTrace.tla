--------------------------- MODULE ReaderTrace ---------------------------
EXTENDS Reader, TraceCheck
=============================================================================
