--------------------------- MODULE SceneGraphMC ---------------------------
EXTENDS SceneGraph, Emit
CONSTANTS Mode, SimDepth, MaxKids, Structure, Named1
\* Structure: nodes may hold nodes; Named1: the nodes which get names
VARIABLES st, hist, last
vars == <<st, hist, last>>
OneNode == <<"a">>
TwoNodes == <<"a", "b">>
ThreeNodes == <<"a", "b", "c">>
NoPreset == <<>>
OnePreset == "a" :> [one |-> "b", many |-> <<>>]
BothPreset == "a" :> [one |-> "b", many |-> <<"c">>] @@ "b" :> [one |-> "", many |-> <<"c">>]
OneScene == <<"s">>
TwoScenes == <<"s", "t">>
OneName == <<"N">>
TwoNames == <<"N", "M">>
Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"]]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
Lists == {<<>>} \cup {<<n>> : n \in Nodes} \cup (IF MaxKids > 1 THEN {<<m, n>> : m, n \in Nodes} ELSE {})
Holders == (IF Structure THEN Nodes ELSE {}) \cup Scenes
NewScene == \E s \in Scenes, v \in Lists : Do([k |-> "scene", s |-> s, kids |-> v])
DropScene == \E s \in Scenes, look \in {0, 1} : Do([k |-> "drop", s |-> s, look |-> look])
SetOne == Structure /\ \E x, n \in Nodes \cup {""} : x # "" /\ Do([k |-> "one", x |-> x, n |-> n])
SetMany == \E x \in Holders, v \in Lists : Do([k |-> "many", x |-> x, kids |-> v])
AppendKid == \E x \in Holders, n \in Nodes : Len(st.kids[x].many) < MaxKids /\ Do([k |-> "append", x |-> x, n |-> n])
ReadKids == Structure /\ \E x \in Holders : Do([k |-> "read", x |-> x])
SetRoot == \E n \in Nodes, s \in Scenes : Do([k |-> "root", n |-> n, s |-> s])
Unroot == \E n \in Nodes : Do([k |-> "unroot", n |-> n])
Register == \E n \in Named1, s \in Scenes, d \in DefNames : Do([k |-> "reg", n |-> n, s |-> s, d |-> d])
SetDef == \E n \in Named1, d \in DefNames \cup {""} : Do([k |-> "def", n |-> n, d |-> d])
Next == NewScene \/ DropScene \/ SetOne \/ SetMany \/ AppendKid \/ ReadKids \/ SetRoot \/ Unroot \/ Register \/ SetDef
Spec == Init /\ [][Next]_vars
View == st
TypeInv == TypeOK(st)
\* C17: an existing root is only replaced by setting a root on the node or one holding it, directly or
\* indirectly (the new scenegraph of its constructor's children included), or goes with its scenegraph
Keeps == [][\A n \in Nodes : (st.root[n] # "" /\ st'.root[n] # st.root[n]) =>
    \/ last'.op.k \in {"root", "unroot"} /\ n \in Below(st, last'.op.n)
    \/ last'.op.k = "scene" /\ \E v \in RangeOf(last'.op.kids) : n \in Below(st, v)
    \/ last'.op.k = "drop" /\ last'.op.s = st.root[n]
    \/ last'.op.k \in {"one", "many"} /\ \E m \in Nodes : st.root[m] = "" /\ n \in Below(st', m)]_vars
\* C17: what is stored in a holder with a root has one
Adopts == [][(last'.op.k \in {"one", "many"} /\ RootOf(st, last'.op.x) # "") =>
    LET new == IF last'.op.k = "many" THEN RangeOf(last'.op.kids) ELSE {last'.op.n} \ {""}
    IN \A n \in new : st'.root[n] # ""]_vars
\* C16: registering is found, and does not change other scenegraphs
Registered == [][last'.op.k = "reg" =>
    /\ st'.table[last'.op.s][last'.op.d] = last'.op.n
    /\ \A s \in Scenes \ {last'.op.s} : st'.table[s] = st.table[s]]_vars
\* C16: a name passes on, or is released by the node which held it
Releases == [][\A s \in st.live, d \in DefNames :
    (st.table[s][d] # "" /\ st'.table[s][d] # st.table[s][d]) =>
        \/ last'.op.k = "reg" /\ last'.op.s = s /\ (last'.op.d = d \/ (st.table[s][d] = last'.op.n /\ st.def[last'.op.n] = d))
        \/ last'.op.k = "drop" /\ last'.op.s = s
        \/ st'.table[s][d] # "" /\ st'.def[st'.table[s][d]] = d]_vars
=============================================================================
