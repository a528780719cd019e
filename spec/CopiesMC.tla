----------------------------- MODULE CopiesMC -----------------------------
EXTENDS Copies, Emit
CONSTANTS Mode, SimDepth, Graphs, MaxOps
VARIABLES st, hist, last
vars == <<st, hist, last>>
DefsDef == <<"m", "n">>

N(n, i, v, kids, ref, weak) == [n |-> n, i |-> i, v |-> v, kids |-> kids, ref |-> ref, weak |-> weak]
S(kids, routes, defs) == <<[n |-> "S", kids |-> kids, routes |-> routes, defs |-> defs]>>
G(nodes, scenes) == [k |-> "build", nodes |-> nodes, scenes |-> scenes]
R(a, b) == <<a, b>>
D(d, n) == [d |-> d, n |-> n]

Nodes == {<<N("a", "1", "w1", akids, aref, aweak), N("b", "2", "w0", bkids, bref, bweak), N("c", "3", "w2", <<>>, "NULL", cweak)>> :
            akids \in {<<>>, <<"b">>, <<"c", "b">>, <<"b", "c", "b">>}, aref \in {"NULL", "b", "c"}, aweak \in {"NULL", "c"},
            bkids \in {<<>>, <<"c">>}, bref \in {"NULL", "c"}, bweak \in {"NULL", "c"}, cweak \in {"NULL", "a", "b"}}
FewNodes == {<<N("a", "1", "w1", akids, aref, "NULL"), N("b", "2", "w0", bkids, "NULL", "c"), N("c", "3", "w2", <<>>, "NULL", "b")>> :
            akids \in {<<>>, <<"c", "b">>}, aref \in {"NULL", "b"}, bkids \in {<<>>, <<"c">>}}
NodesOnly == {G(n, <<>>) : n \in Nodes}
Scenes == {G(n, S(kids, routes, defs)) : n \in FewNodes, kids \in {<<"a">>, <<"a", "c">>, <<"b">>},
            routes \in {<<>>, <<R("a", "b")>>, <<R("b", "c"), R("c", "b")>>}, defs \in {<<>>, <<D("m", "a"), D("n", "c")>>}}
Both == NodesOnly \cup Scenes
FewScenes == {g \in Scenes : g.nodes[1].kids = <<"c", "b">> /\ g.scenes[1].kids \in {<<"a">>, <<"b">>}}
TinyScenes == {g \in FewScenes : g.nodes[1].ref = "b" /\ Len(g.scenes[1].routes) = 2 /\ g.scenes[1].defs # <<>>}
FewBoth == {g \in NodesOnly : g.nodes[1].kids # <<"b">> /\ g.nodes[2].ref = "NULL"} \cup FewScenes

Init == st = Step0([x |-> ""]) /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> <<>>]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, obs |-> IF Mode = "mc" THEN <<>> ELSE r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
All == DOMAIN st.o
Passes == {"1", "2"}
NextPass == CHOOSE p \in Passes : \A q \in Passes : (\E y \in All : SubSeq(y, Len(y), Len(y)) = q) <=> (p = "2" /\ q = "1")

Build == \E g \in Graphs : Do(g)
Copy == /\ ~\E y \in All : SubSeq(y, Len(y), Len(y)) = "2"
        /\ \E x \in All : Rank(x) <= 3 /\ Do([k |-> "copy", x |-> x, p |-> NextPass])
\* what a graph is before the first copy is how it was built
Ready == \E y \in All : Len(y) > 1
Number == Ready /\ \E x \in All : Do([k |-> "i", x |-> x, val |-> "9"])
Word == Ready /\ \E x \in All : Do([k |-> "s", x |-> x, val |-> "x"]) \/ Do([k |-> "unset", x |-> x])
Value == Ready /\ \E x \in All : Do([k |-> "v", x |-> x, val |-> "w2"])
Poke == Ready /\ \E x \in All, w \in {"w1", "w2"} : Do([k |-> "poke", x |-> x, val |-> w])
Kids == Ready /\ \E x \in All : \E val \in {<<>>} \cup {<<y>> : y \in All} : Do([k |-> "kids", x |-> x, val |-> val])
Ref == Ready /\ \E x \in All, val \in All \cup {"NULL"} : Do([k |-> "ref", x |-> x, val |-> val])
Weak == Ready /\ \E x \in All, val \in All \cup {"NULL"} : (val = "NULL" \/ Same(x, val)) /\ Do([k |-> "weak", x |-> x, val |-> val])
Add == Ready /\ \E x, y \in All : Do([k |-> "add", x |-> x, val |-> y])
Take == Ready /\ \E x \in All : Do([k |-> "take", x |-> x])
Connect == Ready /\ \E x, a, b \in All : Do([k |-> "route", x |-> x, a |-> a, b |-> b])
Disconnect == Ready /\ \E x \in All : Do([k |-> "unroute", x |-> x])
Name == Ready /\ \E x, n \in All : Do([k |-> "def", x |-> x, n |-> n, d |-> IF Rank(n) = 3 THEN "m" ELSE "n"])
Next == Build \/ Copy \/ Number \/ Word \/ Value \/ Poke \/ Kids \/ Ref \/ Weak \/ Add \/ Take \/ Connect \/ Disconnect \/ Name
Spec == Init /\ [][Next]_vars
View == st
Bound == TLCGet("level") <= MaxOps + 1

---------------------------------------------------------------------------
TypeInv == TypeOK(st)
\* C15: copying adds objects, and changes none
Unchanged == [][last'.op.k = "copy" => \A x \in All : st'.o[x] = st.o[x]]_vars
\* C15: what belongs together in the original does in the copy
Alike == [][last'.op.k = "copy" =>
            LET p == last'.op.p
                new == DOMAIN st'.o \ All
                old(z) == SubSeq(z, 1, Len(z) - 1)
                Like(y, z) == z = y \o p \/ (z = y /\ y \o p \notin new)
            IN \A z \in new : LET r == st'.o[z] q == st.o[old(z)]
                              IN /\ r.i = q.i /\ r.s = q.s /\ r.v = q.v /\ r.def = q.def
                                 /\ Len(r.kids) = Len(q.kids) /\ \A k \in 1..Len(r.kids) : r.kids[k] = q.kids[k] \o p
                                 /\ Like(q.ref, r.ref) /\ Like(q.weak, r.weak) /\ Like(q.root, r.root)
                                 /\ r.ref \in All => r.ref = "NULL"
                                 /\ \A k \in 1..Len(r.routes) : r.routes[k] = <<q.routes[k][1] \o p, q.routes[k][2] \o p>>
                                 /\ \A d \in DefNames : Like(q.defs[d], r.defs[d])]_vars
\* C15: an edit of one is not seen in the other
Apart == [][(last'.op.k \notin {"copy", "build", "-"}) =>
            \A y \in All : st'.o[y] # st.o[y] => (Same(y, last'.op.x) \/ IsScene(st, y))]_vars
=============================================================================
