---------------------------- MODULE NodePathMC ----------------------------
EXTENDS NodePath, Emit
CONSTANTS Mode, SimDepth, MaxPaths, MaxLen, Kinds, Bounds
VARIABLES st, hist, last
vars == <<st, hist, last>>
NodesDef == <<"a", "b">>
OneNode == <<"a">>
FewBounds == {NONE, 1, -1}
Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> <<>>, snap |-> <<>>]]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, obs |-> r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
Room == Len(st.p) < MaxPaths
Is == 1..MaxPaths
New == Room /\ \E kind \in Kinds, items \in {<<>>} \cup {<<n>> : n \in Nodes} : Do([k |-> "new", kind |-> kind, items |-> items])
Add == Room /\ \E i \in Is : \E items \in {<<n>> : n \in Nodes} \cup {<<n, n>> : n \in Nodes} :
          Usable(st, i) /\ Len(st.p[i].items) + Len(items) <= MaxLen /\ Do([k |-> "add", i |-> i, items |-> items])
AddPath == Room /\ \E i, j \in Is : Usable(st, i) /\ Usable(st, j) /\ Len(st.p[i].items) + Len(st.p[j].items) <= MaxLen
                     /\ Do([k |-> "addpath", i |-> i, j |-> j])
Cut == \E i \in Is, a, b \in Bounds : \E c \in {NONE, -1} : Do([k |-> "slice", i |-> i, a |-> a, b |-> b, c |-> c])
Item == \E i \in Is, a \in {0, -1, 3} : Do([k |-> "item", i |-> i, a |-> a])
Iterate == \E i \in Is : Do([k |-> "iter", i |-> i])
Common == \E i, j \in Is : Do([k |-> "common", i |-> i, j |-> j])
Compare == \/ \E i, j \in Is : Do([k |-> "eq", i |-> i, j |-> j])
           \/ \E i \in Is, n \in Nodes : Do([k |-> "eqseq", i |-> i, items |-> <<n>>])
           \/ \E i \in Is : Do([k |-> "other", i |-> i])
Children == \E i \in Is : Do([k |-> "children", i |-> i])
Invalidate == \E i \in Is : Do([k |-> "invalidate", i |-> i])
Release == \E i \in Is : Do([k |-> "drop", i |-> i])
Kill == \E n \in Nodes : Do([k |-> "kill", n |-> n])
Next == New \/ Add \/ AddPath \/ Cut \/ Item \/ Iterate \/ Common \/ Compare \/ Children \/ Invalidate \/ Release \/ Kill
Spec == Init /\ [][Next]_vars
View == st
TypeInv == TypeOK(st)
\* C23: only invalidating a path breaks it and those made from it, nothing repairs a living path
Breaks == [][\A i \in 1..Len(st.p) :
    /\ (st'.p[i].broken /\ ~st.p[i].broken) => last'.op.k = "invalidate" /\ i \in Below(st.p, last'.op.i)
    /\ (st.p[i].broken /\ Alive(st'.p, i)) => st'.p[i].broken]_vars
\* C23: a path's nodes change only by a node's death
Fixed == [][\A i \in 1..Len(st.p) : (Alive(st'.p, i) /\ st'.p[i].items # st.p[i].items) => last'.op.k = "kill"]_vars
\* C23: making a path from another one extends it, and the common part is common
Extends == [][last'.op.k \in {"add", "addpath"} =>
    LET n == Len(st'.p) IN SubSeq(st'.p[n].items, 1, Len(st.p[last'.op.i].items)) = st.p[last'.op.i].items]_vars
=============================================================================
