------------------------------ MODULE NullTrace ------------------------------
EXTENDS Null, TraceCheck
=============================================================================
