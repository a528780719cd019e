--------------------------- MODULE WeakListTrace ---------------------------
EXTENDS WeakList, TraceCheck
=============================================================================
