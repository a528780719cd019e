---------------------------- MODULE InstancesMC ----------------------------
EXTENDS Instances, Emit
CONSTANTS Mode, SimDepth, Programs, MaxOps, Ints, Words
VARIABLES st, hist, last
vars == <<st, hist, last>>

InstSeqDef == <<"A", "B">>
N(n, type, given, kids) == [n |-> n, type |-> type, given |-> given, kids |-> kids]
Fd(f, kind, def) == [f |-> f, kind |-> kind, def |-> def]
To(f, n, nf) == [f |-> f, n |-> n, nf |-> nf]
R(s, sf, d, df) == [s |-> s, sf |-> sf, d |-> d, df |-> df]
G(f, val) == [f |-> f, val |-> val]
P(name, fields, nodes, roots, is, routes) ==
    [name |-> name, fields |-> fields, nodes |-> nodes, roots |-> roots, is |-> is, routes |-> routes]

Two == <<N("n1", "Leaf", <<G("b", <<"7">>)>>, <<>>), N("n2", "Leaf", <<>>, <<>>)>>
Child == <<N("n1", "Leaf", <<>>, <<"n2">>), N("n2", "Leaf", <<G("a", <<"7">>)>>, <<>>), N("n3", "Leaf", <<>>, <<"n2">>)>>
InnerRoutes == {<<>>, <<R("n1", "a", "n2", "b")>>, <<R("n1", "a", "n2", "a")>>, <<R("n1", "a", "n2", "b"), R("n2", "b", "n1", "b")>>}

\* one field, one or two places
OneField == {<<P("P", <<Fd("x", kind, <<"1">>)>>, Two, <<"n1", "n2">>, is, r)>> :
                kind \in {"int", "event"}, r \in InnerRoutes,
                is \in {<<>>, <<To("x", "n1", "a")>>, <<To("x", "n1", "b")>>, <<To("x", "n2", "b")>>,
                        <<To("x", "n1", "a"), To("x", "n1", "b")>>, <<To("x", "n1", "a"), To("x", "n2", "a")>>}}
\* two fields, nodes which are used twice
TwoFields == {<<P("P", <<Fd("x", "int", <<"1">>), Fd("y", "str", <<"y">>)>>, Child, roots, is, <<>>)>> :
                roots \in {<<"n1", "n3">>, <<"n1", "n3", "n2">>},
                is \in {<<To("x", "n1", "a"), To("y", "n1", "s")>>, <<To("x", "n2", "a"), To("y", "n2", "s")>>,
                        <<To("x", "n2", "b"), To("y", "n1", "s"), To("y", "n3", "s")>>,
                        <<To("x", "n1", "a"), To("x", "n2", "b"), To("y", "n2", "s"), To("y", "n3", "s")>>}}
\* nodes and lists of nodes
NodeFields == {<<P("P", <<Fd("z", "node", <<"NULL">>), Fd("zs", "kids", <<>>)>>, Child, <<"n1", "n3">>, is, <<>>)>> :
                is \in {<<To("z", "n1", "c")>>, <<To("zs", "n2", "kids")>>,
                        <<To("z", "n1", "c"), To("z", "n2", "c"), To("zs", "n2", "kids")>>}}
\* an instance in a prototype
InnerP(is) == P("Q", <<Fd("u", "int", <<"2">>), Fd("w", "int", <<"3">>)>>, Two, <<"n1", "n2">>, is, <<>>)
Nested == {<<InnerP(qis), P("P", <<Fd("x", "int", <<"1">>)>>, <<N("m", "Q", given, <<>>), N("n", "Leaf", <<>>, <<>>)>>, <<"m", "n">>, is, r)>> :
                given \in {<<>>, <<G("w", <<"8">>)>>},
                qis \in {<<To("u", "n1", "a"), To("w", "n2", "b")>>, <<To("u", "n1", "a"), To("u", "n2", "a"), To("w", "n2", "b")>>},
                is \in {<<>>, <<To("x", "m", "u")>>, <<To("x", "m", "u"), To("x", "n", "a")>>},
                r \in {<<>>, <<R("n", "a", "n", "b")>>}}
Flatly == OneField \cup TwoFields
NodesOnly == NodeFields
NestedOnly == Nested
AllPrograms == Flatly \cup NodeFields \cup Nested

Init == st = Step0([x |-> ""]) /\ hist = <<>>
        /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> "", snap |-> <<>>, roots |-> <<>>, apart |-> "yes"]]
Do(op) == /\ Enabled(st, op) /\ Applies(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, obs |-> IF Mode = "mc" THEN <<>> ELSE r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')

Vals(kind) == CASE kind \in {"int", "event"} -> {<<w>> : w \in Ints}
                [] kind = "str" -> {<<w>> : w \in Words}
                [] kind = "node" -> {<<"e1">>, <<"NULL">>}
                [] kind = "kids" -> {<<"e1">>, <<"e2", "e1">>, <<>>}
Declare == \E protos \in Programs : Do([k |-> "declare", protos |-> protos])
NextInst == CHOOSE i \in 1..Len(InstSeq) : st.inst[InstSeq[i]] = "" /\ \A j \in 1..(i - 1) : st.inst[InstSeq[j]] # ""
Room == \E i \in Insts : st.inst[i] = ""
Make == /\ st.ps # <<>> /\ Room
        /\ \E k \in 1..Len(st.ps) :
             LET fs == st.ps[k].fields
                 plain == {i \in 1..Len(fs) : fs[i].kind \in {"int", "str"}}
             IN \E given \in {<<>>} \cup UNION {{<<G(fs[i].f, val)>> : val \in Vals(fs[i].kind)} : i \in plain} :
                   Do([k |-> "make", i |-> InstSeq[NextInst], type |-> st.ps[k].name, given |-> given])
\* ports which have to do with an interface or a route, and one which has not
Touched(p) == \E k \in 1..Len(st.edges) : st.edges[k].s = p \/ st.edges[k].d = p
Store == \E p \in DOMAIN st.v : /\ Touched(p) \/ (Len(p) > 5 /\ SubSeq(p, 2, 5) \in {"/n1.", "!n2."})
                                /\ \E val \in Vals(PortNamed(st, p).kind) : Do([k |-> "set", p |-> p, val |-> val])
Add == \E p \in DOMAIN st.v, e \in {"e1", "e3"} : PortNamed(st, p).kind = "kids" /\ Do([k |-> "add", p |-> p, e |-> e])
Take == \E p \in DOMAIN st.v : PortNamed(st, p).kind = "kids" /\ Do([k |-> "take", p |-> p])
Delete == Do([k |-> "del", p |-> st.set])
Copy == Room /\ \E i \in Insts : Do([k |-> "copy", i |-> i, j |-> InstSeq[NextInst]])
DropOne == \E i \in Insts : Do([k |-> "drop", i |-> i])
Next == Declare \/ Make \/ Store \/ Add \/ Take \/ Delete \/ Copy \/ DropOne
Spec == Init /\ [][Next]_vars
View == <<st.ps, st.inst, st.v, st.set>>
Bound == TLCGet("level") <= MaxOps + 1

---------------------------------------------------------------------------
TypeInv == TypeOK(st)
\* C14: an interface field and what it is connected to are the same
Linked == LET es == st.edges IN \A k \in 1..Len(es) : (es[k].back /\ PortNamed(st, es[k].s).kind # "event") => st.v[es[k].s] = st.v[es[k].d]
\* C14: what is done to an instance changes no other instance and no prototype
Owner(p) == IF InTemplate(p) THEN SubSeq(p, 1, 2) ELSE SubSeq(p, 1, 1)
Separate == [][\A p \in DOMAIN st.v : (p \in DOMAIN st'.v /\ st'.v[p] # st.v[p]) =>
                  last'.op.k \in {"set", "add", "take", "del"} /\ Owner(p) = Owner(last'.op.p)]_vars
\* C14: a value given is there, whatever else is connected
Given == [][(last'.op.k = "make" /\ last'.op.given # <<>>) =>
               st'.v[last'.op.i \o "." \o last'.op.given[1].f] = last'.op.given[1].val]_vars
\* C14: a copy starts with the values of the original, and all its own nodes
SameAs == [][last'.op.k = "copy" =>
               \A p \in DOMAIN st'.v : OfInstance(p, last'.op.i) =>
                  LET mine == st'.v[last'.op.j \o SubSeq(p, Len(last'.op.i) + 1, Len(p))]
                  IN /\ Len(mine) = Len(st'.v[p])
                     /\ \A k \in 1..Len(mine) : ~OfInstance(mine[k], last'.op.i)]_vars
=============================================================================
