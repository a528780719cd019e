---------------------------- MODULE OListTrace ----------------------------
EXTENDS OList, TraceCheck
=============================================================================
