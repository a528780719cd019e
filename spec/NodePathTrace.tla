--------------------------- MODULE NodePathTrace ---------------------------
EXTENDS NodePath, TraceCheck
NodesDef == <<"a", "b", "c", "d", "e">>
=============================================================================
