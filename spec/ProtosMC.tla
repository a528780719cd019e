------------------------------ MODULE ProtosMC ------------------------------
EXTENDS Protos, Emit
CONSTANTS Mode, SimDepth, MaxScenes, Programs
VARIABLES st, hist, last
vars == <<st, hist, last>>
NamesDef == <<"P", "Group">>
MoreNames == <<"P", "Q", "Group">>
Node(n, body) == [k |-> "node", n |-> n, body |-> body]
Proto(n, body) == [k |-> "proto", n |-> n, body |-> body]
Extern(n) == [k |-> "extern", n |-> n, body |-> <<>>]
Bare == {Node(n, <<>>) : n \in ProtoNames}
Flat == Bare \cup {Proto(n, <<>>) : n \in ProtoNames}
UpTo(set, k) == {<<>>} \cup {<<a>> : a \in set} \cup (IF k > 1 THEN {<<a, b>> : a, b \in set} ELSE {})
Deep == Flat \cup {Proto(n, b) : n \in ProtoNames, b \in UpTo(Flat, 2)} \cup {Extern("P")}
             \cup {Node(n, <<Proto("P", b)>>) : n \in ProtoNames, b \in UpTo(Bare, 1)}
Deeper == Deep \cup {Proto(n, <<Proto(m, b), Node(m, <<>>)>>) : n, m \in ProtoNames, b \in UpTo(Flat, 2)}
NoPrograms == {<<>>}
FewPrograms == {<<>>, <<Proto("P", <<>>)>>, <<Proto("Group", <<Node("Group", <<>>)>>), Node("Group", <<>>)>>,
                <<Proto("P", <<Proto("Group", <<>>)>>), Node("P", <<>>), Node("Group", <<>>)>>, <<Node("P", <<>>)>>}
AllPrograms == {<<a>> : a \in Deep} \cup {<<a, b>> : a, b \in Deep} \cup {<<a, b, c>> : a, b \in Deep, c \in Bare}
LongPrograms == {<<a, b>> : a, b \in Deeper} \cup {<<a, b, c>> : a \in Deep, b \in Deeper, c \in Bare}
Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], ret |-> <<>>]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, ret |-> r.obs.ret]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
Room == Len(st) < MaxScenes
New == Room /\ \E o \in 0..Len(st) : Do([k |-> "new", outer |-> o])
AddProto == \E i \in 1..Len(st), n \in ProtoNames, d \in {"c1", "c2"} : Do([k |-> "add", i |-> i, n |-> n, d |-> d])
Copy == Room /\ \E i \in 1..Len(st) : Do([k |-> "copy", i |-> i])
DropScene == \E i \in 1..Len(st) : Do([k |-> "drop", i |-> i])
Parse == Room /\ \E items \in Programs : Do([k |-> "parse", items |-> items])
Next == New \/ AddProto \/ Copy \/ DropScene \/ Parse
\* texts alone, from the start
NextParse == last.op.k = "-" /\ Parse
Spec == Init /\ [][Next]_vars
ParseSpec == Init /\ [][NextParse]_vars
View == st
ParseView == <<st, last.op>>
TypeInv == TypeOK(st)
\* C18: defining a name changes what it means in that scenegraph and those enclosed by it only, and what
\* other names mean nowhere
RECURSIVE Encloses(_, _)
Encloses(i, j) == i = j \/ (st[j].outer # 0 /\ Encloses(i, st[j].outer))
Scoped == [][last'.op.k = "add" => \A j \in 1..Len(st), n \in ProtoNames :
    Look(st', j, n) # Look(st, j, n) => n = last'.op.n /\ Encloses(last'.op.i, j)]_vars
Newest == [][last'.op.k = "add" => Look(st', last'.op.i, last'.op.n) = last'.op.d]_vars
\* C18: reading a text changes the meaning of no name elsewhere
Apart == [][last'.op.k \in {"parse", "new", "copy"} => SubSeq(st', 1, Len(st)) = st]_vars
=============================================================================
