------------------------------ MODULE CacheMC ------------------------------
EXTENDS Cache, Emit
CONSTANTS Mode, SimDepth, MaxEntries, MaxDeps

VARIABLES st, hist, last
vars == <<st, hist, last>>
OneCache == <<"global">>
NodesDef == <<"n1", "n2">>
KeysDef == <<"", "k">>
OneField == <<"f">>

Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], ret |-> ""]
Used(s) == {x \in Slots : Exists(s, x)}
RECURSIVE Sum(_, _)
Sum(s, set) == IF set = {} THEN 0
               ELSE LET x == CHOOSE y \in set : TRUE
                    IN Cardinality(s.ent[x].deps) + Cardinality(s.ent[x].objs) + Sum(s, set \ {x})
Do(op) == LET r == Step(st, op)
          IN /\ Args(op) \subseteq st.alive
             /\ Cardinality(Used(r.st)) <= MaxEntries
             /\ Sum(r.st, Used(r.st)) <= MaxDeps
             /\ st' = r.st
             /\ last' = [op |-> op, ret |-> r.obs.ret]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')

At(s, r) == [k |-> r, c |-> s.c, n |-> s.n, q |-> s.q]
DoHold == \E s \in Slots, k \in {"hold", "set"} : Do([k |-> k, c |-> s.c, n |-> s.n, q |-> s.q, v |-> "v"])
DoDepend == \E s \in Slots, m \in NodeSet, f \in Fld :
                Do([k |-> "depend", c |-> s.c, n |-> s.n, q |-> s.q, m |-> m, f |-> f])
DoDependObj == \E s \in Slots, m \in NodeSet :
                Do([k |-> "dependobj", c |-> s.c, n |-> s.n, q |-> s.q, m |-> m])
DoEnd == \E s \in Slots, k \in {"clear", "drop"} : Do([k |-> k, c |-> s.c, n |-> s.n, q |-> s.q])
DoChange == \E m \in NodeSet, f \in Fld, how \in {"attr", "fset"} : Do([k |-> "change", m |-> m, f |-> f, how |-> how])
DoOther == \E m \in NodeSet, f \in Fld, k \in {"bad", "quiet", "read", "del", "routed"} : Do([k |-> k, m |-> m, f |-> f])
DoDie == \E m \in NodeSet : Do([k |-> "die", m |-> m])
DoBorn == \E m \in NodeSet \ st.alive : Do([k |-> "born", m |-> m])

Next == DoHold \/ DoDepend \/ DoDependObj \/ DoEnd \/ DoChange \/ DoOther \/ DoDie \/ DoBorn
Spec == Init /\ [][Next]_vars
View == st
---------------------------------------------------------------------------
TypeInv == TypeOK(st)
\* C10: an entry loses its data only for one of the reasons there are
Reasons == [][\A s \in Slots :
    (Exists(st, s) /\ st.ent[s].val = "v" /\ st'.ent[s].val # "v") =>
       \/ last'.op.k \in {"clear", "drop"} /\ Slot(last'.op) = s
       \/ last'.op.k \in {"change", "del", "routed"} /\ <<last'.op.m, last'.op.f>> \in st.ent[s].deps
       \/ last'.op.k = "die" /\ (s.n = last'.op.m \/ last'.op.m \in st.ent[s].objs)]_vars
\* C10: a dependency's change always clears it
Clears == [][\A s \in Slots :
    (/\ last'.op.k \in {"change", "del", "routed"} /\ last'.ret = "ok"
     /\ <<last'.op.m, last'.op.f>> \in st.ent[s].deps) => st'.ent[s].val = "empty"]_vars
=============================================================================
