------------------------- MODULE TransformFnsTrace -------------------------
EXTENDS TransformFns, TraceCheck
=============================================================================
