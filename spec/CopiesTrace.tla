--------------------------- MODULE CopiesTrace ---------------------------
EXTENDS Copies, TraceCheck
DefsDef == <<"m", "n", "p", "q", "r">>
=============================================================================
