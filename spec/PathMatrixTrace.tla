-------------------------- MODULE PathMatrixTrace --------------------------
EXTENDS PathMatrix, TraceCheck
TransDef == <<"t1", "t2", "t3">>
PathsDef == [p1 |-> <<"t1">>, p2 |-> <<"t1", "g", "t2">>, p3 |-> <<"t2", "t1">>, p4 |-> <<"g">>,
             p5 |-> <<"t1", "g", "t2", "t3">>, p6 |-> <<"t1", "t3", "g">>, p7 |-> <<"t3", "t3">>, p8 |-> <<>>]
=============================================================================
