--------------------------- MODULE PathMatrixMC ---------------------------
EXTENDS PathMatrix, Emit
CONSTANTS Mode, SimDepth, MaxSet, MaxDirty, PathSet, Flags, Ways, Weak01
VARIABLES st, hist, last
vars == <<st, hist, last>>

TransDef == <<"t1", "t2">>
PathsDef == [p1 |-> <<"t1">>, p2 |-> <<"t1", "g", "t2">>, p3 |-> <<"t2", "t1">>, p4 |-> <<"g">>]
FewFlags == {<<1,1,1>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>}
AllFlags == {<<a, b, c>> : a, b, c \in {0, 1}}
LabelOf == [translation |-> "p", center |-> "c", rotation |-> "d3", scale |-> "sx", so |-> "qz"]

Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> "", m |-> <<>>]]
NumSet(s) == Cardinality({x \in Ts \X Fld : s.val[x[1]][x[2]] # "-"})
Do(op) == LET r == Step(st, op)
          IN /\ Enabled(st, op)
             /\ NumSet(r.st) <= MaxSet
             /\ Cardinality(r.st.dirty) <= MaxDirty
             /\ st' = r.st
             /\ last' = [op |-> op, obs |-> r.obs]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')
DoSet == \E t \in Ts, f \in Fld, w \in Ways : Do([k |-> "set", t |-> t, f |-> f, v |-> LabelOf[f], w |-> w])
DoDelete == \E t \in Ts, f \in Fld : Do([k |-> "del", t |-> t, f |-> f])
DoQuery == \E p \in PathSet, g \in Flags, i \in {0, 1} :
              Do([k |-> "query", p |-> p, tr |-> g[1], sc |-> g[2], ro |-> g[3], inv |-> i])
DoLocal == \E t \in Ts, g \in Flags, i \in {0, 1} :
              Do([k |-> "local", t |-> t, tr |-> g[1], sc |-> g[2], ro |-> g[3], inv |-> i])
DoDie == \E t \in Ts : Do([k |-> "die", t |-> t])
DoBuild == \E w, e \in Weak01 : Do([k |-> "build", weak |-> w, ext |-> e])
DoBad == \E f \in Fld : Do([k |-> "bad", t |-> "t1", f |-> f])
Next == DoLocal \/ DoDie \/ DoBuild \/ DoSet \/ DoDelete \/ DoQuery \/ DoBad
Spec == Init /\ [][Next]_vars
View == st
---------------------------------------------------------------------------
\* C11: forward and inverse of every path are inverses, in every state
AreInverses == \A p \in PathSet, g \in Flags :
    Mul(PathForward(st, NodesOn(st, p), g[1] = 1, g[2] = 1, g[3] = 1),
        PathInverse(st, NodesOn(st, p), g[1] = 1, g[2] = 1, g[3] = 1)) = Id
\* a query changes nothing, and asking for nothing gives the identity
Reads == [][last'.op.k \in {"query", "local"} => st'.val = st.val]_vars
Nothing == \A p \in PathSet : PathForward(st, Paths[p], FALSE, FALSE, FALSE) = Id
TypeInv == AreInverses /\ Nothing
=============================================================================
