---------------------------- MODULE RoutesTrace ----------------------------
EXTENDS Routes, TraceCheck
PortsDef == <<"A.i", "A.s", "A.e", "B.f", "B.l", "B.h", "C.i", "C.s", "C.b", "C.h", "D.f", "D.h">>
KindDef == ("A.i" :> "int" @@ "A.s" :> "str" @@ "A.e" :> "event" @@ "B.f" :> "float" @@ "B.l" :> "list"
            @@ "B.h" :> "handled" @@ "C.i" :> "int" @@ "C.s" :> "str" @@ "C.b" :> "bool" @@ "C.h" :> "handled"
            @@ "D.f" :> "float" @@ "D.h" :> "event")
LongPorts == <<"A.i", "A.f", "B.i", "B.f", "C.i", "C.f", "D.i", "D.f", "E.i", "E.f", "F.i", "F.f", "G.i", "G.f", "H.i", "H.f", "I.i", "I.f", "J.i", "J.f", "K.i", "K.f", "L.i", "L.f">>
LongKind == [p \in {LongPorts[k] : k \in 1..24} |-> IF SubSeq(p, 3, 3) = "i" THEN "int" ELSE "float"]
=============================================================================
