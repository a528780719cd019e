------------------------------ MODULE Copies ------------------------------
(* Copies of nodes and scenegraphs (copy in vrml/node.py, vrml/field.py and *)
(* vrml/vrml97/scenegraph.py; vrml/copier.py).  Property C15.               *)
(*                                                                          *)
(* Objects are named; what pass p copies of x is x \o p.  A node has a      *)
(* number i, a string s, a value v which may be changed in place, a list of *)
(* nodes kids, a node ref, a node weak which it does not keep alive, a DEF  *)
(* name and a root.  A scenegraph has kids (its children), routes (pairs:   *)
(* between the fields i of two nodes) and a table of DEF names.             *)
EXTENDS PyList, TLC

CONSTANTS DefSeq
DefNames == RangeOf(DefSeq)
NoTable == [d \in DefNames |-> ""]
Step0(params) == [order |-> <<>>, o |-> <<>>]

IsScene(st, x) == st.o[x].t = "S"
Held(st, x) == RangeOf(st.o[x].kids) \cup (IF st.o[x].ref = "NULL" THEN {} ELSE {st.o[x].ref})
RECURSIVE Below(_, _)
Below(st, x) == {x} \cup UNION {Below(st, y) : y \in Held(st, x)}

\* the nodes of set get the root r, which registers the names they have
Adopt(st, set, r) ==
    [st EXCEPT !.o = [x \in DOMAIN st.o |->
        IF x \in set THEN [st.o[x] EXCEPT !.root = r]
        ELSE IF x = r THEN [st.o[x] EXCEPT !.defs = [d \in DefNames |->
                IF \E n \in set : st.o[n].def = d THEN CHOOSE n \in set : st.o[n].def = d ELSE @[d]]]
        ELSE st.o[x]]]
RECURSIVE Attach(_, _, _)
Attach(st, vs, r) == IF vs = <<>> \/ r = "" THEN st
                     ELSE Attach(IF st.o[vs[1]].root = "" THEN Adopt(st, Below(st, vs[1]), r) ELSE st, Tail(vs), r)
RootOf(st, x) == IF IsScene(st, x) THEN x ELSE st.o[x].root

\* ------------------------------------------------------------ observations
Table(st, x, k) == DefSeq[k] \o "=" \o st.o[x].defs[DefSeq[k]]
Line(st, x) ==
    LET r == st.o[x]
    IN IF r.t = "S"
       THEN x \o " kids=" \o Join(r.kids, " ") \o " routes=" \o Join([k \in 1..Len(r.routes) |-> r.routes[k][1] \o ">" \o r.routes[k][2]], " ")
              \o " " \o Join([k \in 1..Len(DefSeq) |-> Table(st, x, k)], " ")
       ELSE x \o " i=" \o r.i \o " s=" \o r.s \o " v=" \o r.v \o " kids=" \o Join(r.kids, " ") \o " ref=" \o r.ref \o " weak=" \o r.weak
              \o " def=" \o r.def \o " root=" \o r.root
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, snap |-> [k \in 1..Len(st.order) |-> Line(st, st.order[k])]]]

\* ------------------------------------------------------------ steps
Blank == [t |-> "N", i |-> "0", s |-> "", v |-> "w0", kids |-> <<>>, ref |-> "NULL", weak |-> "NULL", def |-> "", root |-> "",
          routes |-> <<>>, defs |-> NoTable]
\* nodes are built from the last to the first, then scenegraphs
Named(seq) == [k \in 1..Len(seq) |-> seq[k].n]
Built(op) ==
    LET nodes == [x \in RangeOf(Named(op.nodes)) |->
                    LET n == op.nodes[CHOOSE k \in 1..Len(op.nodes) : op.nodes[k].n = x]
                    IN [Blank EXCEPT !.i = n.i, !.v = n.v, !.kids = n.kids, !.ref = n.ref, !.weak = n.weak]]
        s1 == [order |-> Named(op.nodes), o |-> nodes]
        RECURSIVE Scenes(_, _), Regs(_, _, _)
        Regs(st, x, ds) == IF ds = <<>> THEN st
                           ELSE Regs([st EXCEPT !.o = [@ EXCEPT ![x].defs[ds[1].d] = ds[1].n, ![ds[1].n].def = ds[1].d]], x, Tail(ds))
        Scenes(st, k) == IF k > Len(op.scenes) THEN st
                         ELSE LET sc == op.scenes[k]
                                  s2 == [order |-> Append(st.order, sc.n),
                                         o |-> (sc.n :> [Blank EXCEPT !.t = "S", !.kids = sc.kids, !.root = sc.n, !.routes = sc.routes]) @@ st.o]
                                  s3 == Adopt(s2, UNION {Below(s2, y) : y \in RangeOf(sc.kids)}, sc.n)
                              IN Scenes(Regs(s3, sc.n, sc.defs), k + 1)
    IN Scenes(s1, 1)

\* what is copied with x
RECURSIVE Reach(_, _)
Reach(st, S) ==
    LET more == S \cup UNION {Held(st, x) : x \in S}
                  \cup UNION {{st.o[x].defs[d] : d \in DefNames} \ {""} : x \in {y \in S : IsScene(st, y)}}
                  \cup UNION {UNION {{st.o[x].routes[k][1], st.o[x].routes[k][2]} : k \in 1..Len(st.o[x].routes)} : x \in {y \in S : IsScene(st, y)}}
    IN IF more = S THEN S ELSE Reach(st, more)
Copied(st, x, p) ==
    LET R == Reach(st, {x})
        M(y) == IF y \in R THEN y \o p ELSE y
        Ms(ys) == [k \in 1..Len(ys) |-> M(ys[k])]
        olds == Keep(st.order, R)
        new(y) == LET r == st.o[y] IN
                  [r EXCEPT !.kids = Ms(@), !.ref = M(@), !.weak = M(@), !.root = M(@),
                            !.routes = [k \in 1..Len(@) |-> Ms(@[k])], !.defs = [d \in DefNames |-> M(@[d])]]
        names == {y \o p : y \in R}
    IN [order |-> st.order \o [k \in 1..Len(olds) |-> olds[k] \o p],
        o |-> [z \in names |-> new(CHOOSE y \in R : y \o p = z)] @@ st.o]

\* a number set goes along all routes
Links(st) == UNION {RangeOf(st.o[x].routes) : x \in {y \in DOMAIN st.o : IsScene(st, y)}}
RECURSIVE Spread(_, _)
Spread(links, S) == LET more == S \cup {l[2] : l \in {m \in links : m[1] \in S}} IN IF more = S THEN S ELSE Spread(links, more)

Ok(st) == Res(st, "ok")
Step(st, op) ==
    CASE op.k = "build" -> Ok(Built(op))
      [] op.k = "copy" -> Res(Copied(st, op.x, op.p), op.x \o op.p)
      [] op.k = "i" -> LET R == Spread(Links(st), {op.x})
                       IN Ok([st EXCEPT !.o = [y \in DOMAIN @ |-> IF y \in R THEN [@[y] EXCEPT !.i = op.val] ELSE @[y]]])
      [] op.k = "s" -> Ok([st EXCEPT !.o[op.x].s = op.val])
      [] op.k = "v" -> Ok([st EXCEPT !.o[op.x].v = op.val])
      [] op.k = "poke" -> Ok([st EXCEPT !.o[op.x].v = op.val])
      [] op.k = "unset" -> Ok([st EXCEPT !.o[op.x].s = ""])
      [] op.k = "kids" -> Ok(Attach([st EXCEPT !.o[op.x].kids = op.val], op.val, RootOf(st, op.x)))
      [] op.k = "ref" -> Ok(Attach([st EXCEPT !.o[op.x].ref = op.val], IF op.val = "NULL" THEN <<>> ELSE <<op.val>>, RootOf(st, op.x)))
      [] op.k = "weak" -> Ok(Attach([st EXCEPT !.o[op.x].weak = op.val], IF op.val = "NULL" THEN <<>> ELSE <<op.val>>, RootOf(st, op.x)))
      [] op.k = "add" -> Ok([st EXCEPT !.o[op.x].kids = Append(@, op.val)])
      [] op.k = "take" -> IF st.o[op.x].kids = <<>> THEN Res(st, "nothing") ELSE Ok([st EXCEPT !.o[op.x].kids = SubSeq(@, 1, Len(@) - 1)])
      [] op.k = "route" -> Ok([st EXCEPT !.o[op.x].routes = Append(@, <<op.a, op.b>>)])
      [] op.k = "unroute" -> IF st.o[op.x].routes = <<>> THEN Res(st, "nothing") ELSE Ok([st EXCEPT !.o[op.x].routes = SubSeq(@, 1, Len(@) - 1)])
      [] op.k = "def" ->
            LET old == st.o[op.n].def
                t == [d \in DefNames |-> IF d = op.d THEN op.n ELSE IF d = old /\ st.o[op.x].defs[d] = op.n THEN "" ELSE st.o[op.x].defs[d]]
            IN Ok([st EXCEPT !.o = [@ EXCEPT ![op.x].defs = t, ![op.n].def = op.d]])

\* objects of the same pass; a node only holds nodes after it, so there are no cycles
Rest(x) == SubSeq(x, 2, Len(x))
Same(x, y) == Rest(x) = Rest(y)
Letters == <<"S", "T", "a", "b", "c", "d", "e">>
Rank(x) == FirstPos(Letters, SubSeq(x, 1, 1))
There(st, x) == x \in DOMAIN st.o
Node(st, x) == IF There(st, x) THEN ~IsScene(st, x) ELSE FALSE
Scene(st, x) == IF There(st, x) THEN IsScene(st, x) ELSE FALSE
Under(st, x, y) == Node(st, y) /\ Same(x, y) /\ Rank(x) < Rank(y)
Enabled(st, op) ==
    CASE op.k = "build" -> st.order = <<>>
      [] op.k = "copy" -> There(st, op.x) /\ \A y \in DOMAIN st.o : SubSeq(y, Len(y), Len(y)) # op.p
      [] op.k \in {"i", "s", "v", "poke", "unset"} -> Node(st, op.x)
      [] op.k = "kids" -> There(st, op.x) /\ \A y \in RangeOf(op.val) : Under(st, op.x, y)
      [] op.k = "ref" -> Node(st, op.x) /\ (IF op.val = "NULL" THEN TRUE ELSE Under(st, op.x, op.val))
      [] op.k = "weak" -> Node(st, op.x) /\ (op.val = "NULL" \/ Node(st, op.val))
      [] op.k = "add" -> There(st, op.x) /\ Under(st, op.x, op.val)
      [] op.k = "take" -> There(st, op.x)
      [] op.k = "route" -> Scene(st, op.x) /\ Node(st, op.a) /\ Node(st, op.b) /\ op.a # op.b /\ Same(op.x, op.a) /\ Same(op.x, op.b)
      [] op.k = "unroute" -> Scene(st, op.x)
      \* every node has its own names
      [] op.k = "def" -> Scene(st, op.x) /\ Node(st, op.n) /\ Same(op.x, op.n) /\ \A y \in DOMAIN st.o : Rank(y) # Rank(op.n) => st.o[y].def # op.d
TypeOK(st) == RangeOf(st.order) = DOMAIN st.o
=============================================================================
