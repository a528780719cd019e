--------------------------- MODULE NodeListsTrace ---------------------------
EXTENDS NodeLists, TraceCheck
NodesDef == <<"n1", "n2", "n3">>
FieldsDef == <<"a", "b", "c">>
=============================================================================
