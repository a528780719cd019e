---------------------------- MODULE ProtosTrace ----------------------------
EXTENDS Protos, TraceCheck
NamesDef == <<"P", "Q", "R", "Group", "Box">>
=============================================================================
