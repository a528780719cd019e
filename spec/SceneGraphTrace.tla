-------------------------- MODULE SceneGraphTrace --------------------------
EXTENDS SceneGraph, TraceCheck
NodesDef == <<"t1", "t2", "t3", "t4", "t5", "r1", "r2">>
ScenesDef == <<"s1", "s2", "s3">>
\* P and Q go from node to node, the others belong to one node
NamesDef == <<"P", "Q", "A1", "B1", "A2", "B2", "A3", "A4", "A5">>
\* nodes which hold others by default
PresetDef == "t1" :> [one |-> "t4", many |-> <<>>] @@ "t3" :> [one |-> "", many |-> <<"t5", "t4">>]
             @@ "t4" :> [one |-> "t5", many |-> <<>>]
=============================================================================
