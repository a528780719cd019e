----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TraceCheck
CachesDef == <<"context", "global">>
NodesDef == <<"n1", "n2", "n3">>
KeysDef == <<"", "k">>
FieldsDef == <<"f", "g", "l">>
=============================================================================
