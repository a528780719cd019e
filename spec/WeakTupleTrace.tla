-------------------------- MODULE WeakTupleTrace --------------------------
EXTENDS WeakTuple, TraceCheck
=============================================================================
