-------------------------- MODULE InstancesTrace --------------------------
EXTENDS Instances, TraceCheck
InstSeqDef == <<"A", "B", "C", "D">>
=============================================================================
