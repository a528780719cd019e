---------------------------- MODULE FieldsTrace ----------------------------
(* Recorded executions checked against Fields.                              *)
EXTENDS Fields, TraceCheck
NodesDef == <<"n1", "n2", "n3">>
FieldsDef == <<"f1", "f2", "f3", "f4">>
MutableDef == {"f2", "f4"}
=============================================================================
