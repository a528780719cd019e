---------------------------- MODULE NodeListsMC ----------------------------
EXTENDS NodeLists, Emit
CONSTANTS Mode, SimDepth, MaxLen, Kids

VARIABLES st, hist, last
vars == <<st, hist, last>>
NodesTwo == <<"n1", "n2">>
NodesOne == <<"n1">>
FieldsTwo == <<"a", "b">>
FieldsOne == <<"b">>

SeqsUpTo(n) == UNION {[1..m -> Kids] : m \in 0..n}
Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [notes |-> <<>>, ret |-> "", snap |-> <<>>]]

Small(s) == \A n \in Nodes : /\ \A f \in Flds : Len(s[n][f]) <= MaxLen
Do(op) == LET r == Step(st, op)
          IN /\ Small(r.st)
             /\ st' = r.st
             /\ last' = [op |-> op, obs |-> r.obs]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')

DoRead == \E n \in Nodes, f \in Flds : Do([k |-> "read", n |-> n, f |-> f])
DoAssign == \E n \in Nodes, f \in Flds, v \in SeqsUpTo(MaxLen) : Do([k |-> "assign", n |-> n, f |-> f, v |-> v])
DoBad == \E n \in Nodes, f \in Flds : Do([k |-> "bad", n |-> n, f |-> f])
DoFrom == \E n, m \in Nodes, f, g \in Flds : Do([k |-> "from", n |-> n, f |-> f, m |-> m, g |-> g])
DoDelete == \E n \in Nodes, f \in Flds : Do([k |-> "del", n |-> n, f |-> f])
Changes == {[k |-> "append", x |-> x] : x \in Kids} \cup {[k |-> "remove", x |-> x] : x \in Kids}
     \cup {[k |-> "insert", x |-> x, i |-> 0] : x \in Kids} \cup {[k |-> "put", x |-> x, i |-> 0] : x \in Kids}
     \cup {[k |-> "iadd", v |-> <<x>>] : x \in Kids} \cup {[k |-> "extend", v |-> <<x>>] : x \in Kids}
     \cup {[k |-> k] : k \in {"clear", "reverse"}}
     \cup {[k |-> "pop", i |-> i] : i \in {NONE, 0, 1}} \cup {[k |-> "del", i |-> i] : i \in {0, -1}}
     \cup {[k |-> "imul", i |-> i] : i \in {0, 2}}
     \cup {[k |-> "dslice", i |-> i, j |-> NONE, s |-> NONE] : i \in {0, 1}}
     \cup {[k |-> "pslice", i |-> i, j |-> NONE, s |-> NONE, v |-> v] : i \in {0, 1}, v \in SeqsUpTo(1)}
DoChange == \E n \in Nodes, f \in Flds, o \in Changes, via \in {"get", "held", "aug"} :
               /\ via = "aug" => o.k = "iadd"
               /\ via = "held" => o.k \in {"append", "pop", "pslice"}
               /\ Do([k |-> "change", n |-> n, f |-> f, o |-> o, via |-> via])
DoNew == \E n \in Nodes, a, b \in {<<>>, <<"c1">>} : Do([k |-> "new", n |-> n, vals |-> [f \in Flds |-> IF f = "a" THEN a ELSE b]])
DoParse == \E n \in Nodes, f \in Flds : Do([k |-> "parse", n |-> n, f |-> f])
DoCopy == \E n, m \in Nodes : n # m /\ Do([k |-> "copy", n |-> n, m |-> m])

Next == DoRead \/ DoAssign \/ DoBad \/ DoFrom \/ DoDelete \/ DoChange \/ DoNew \/ DoParse \/ DoCopy
Spec == Init /\ [][Next]_vars
View == st
---------------------------------------------------------------------------
\* C07: whatever the change was, its watchers were told, and no others
Tells == [][\A n \in Nodes, f \in Flds :
              LET told == {k \in 1..Len(last'.obs.notes) :
                             last'.obs.notes[k] = n \o "." \o f \o " told " \o Join(Read(st', n, f), ",")}
              IN /\ (last'.op.k \in {"assign", "from", "change"} /\ RangeOf(Read(st, n, f)) # RangeOf(Read(st', n, f)))
                       => told # {} 
                 /\ told # {} => last'.op.n = n /\ last'.op.f = f]_vars
Frame == [][\A n \in Nodes, f \in Flds : Read(st', n, f) # Read(st, n, f) => last'.op.n = n]_vars
=============================================================================
