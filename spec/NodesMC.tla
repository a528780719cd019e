----------------------------- MODULE NodesMC ------------------------------
(* The standard nodes, one after the other                                    *)
EXTENDS Reader, Emit
CONSTANTS Mode
VARIABLES left
vars == <<left>>
All == DOMAIN StdNodes
Op(n) == [k |-> "interface", n |-> n, names |-> [i \in 1..Len(StdNodes[n]) |-> StdNodes[n][i].n]]
Init == left = All
Next == \E n \in left : /\ n = CHOOSE x \in left : TRUE
                        /\ left' = left \ {n}
                        /\ IF Mode = "gen" THEN EmitHist("gen", 0, <<<<Op(n), Do1(Op(n))>>>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* the table is one: names are unique in a node, types are VRML97's, defaults are whole values
Sound == \A n \in All : LET rows == StdNodes[n] IN
    /\ \A i, j \in 1..Len(rows) : rows[i].n = rows[j].n => i = j
    /\ \A i \in 1..Len(rows) : rows[i].t \in Types /\ rows[i].n \notin Keywords
        /\ (rows[i].x \in {"field", "exposedField"} /\ rows[i].t \in SFTypes \ {"SFNode"} => Len(rows[i].d) = Numbers(rows[i].t))
        /\ (rows[i].t \in MFTypes => Len(rows[i].d) % Numbers(rows[i].t) = 0)
    \* a field which can be set by an event has no other event of that name
    /\ \A i \in 1..Len(rows) : rows[i].x = "exposedField" => ~\E j \in 1..Len(rows) : rows[j].n \in {"set_" \o rows[i].n, rows[i].n \o "_changed"}
Standard == Cardinality(All) = 53
=============================================================================
