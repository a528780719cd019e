----------------------------- MODULE Instances -----------------------------
(* Prototype instances (PrototypedNode in vrml/node.py, IS in vrml/route.py,*)
(* vrml/copier.py).  Property C14.                                          *)
(*                                                                          *)
(* A prototype is a record: name; fields, a sequence of [f, kind, def];     *)
(* nodes, of its body, a sequence of [n, type, given, kids] in the order in *)
(* which they are written (type is "Leaf" or a prototype declared before);  *)
(* roots, the names of the nodes the body consists of; is, a sequence of    *)
(* [f, n, nf] and routes, of [s, sf, d, df].                                 *)
(* Nodes are named by where they are: "I" an instance, "I/n" a node of its  *)
(* body, "I/n/m" one of the body of the instance "I/n", and "P!n" one of the *)
(* body of the prototype P itself.  A port is a node and a field.  All      *)
(* values are sequences of words.                                            *)
EXTENDS PyList, TLC

CONSTANTS InstSeq
LeafFields == <<[f |-> "a", kind |-> "int", def |-> <<"0">>], [f |-> "b", kind |-> "int", def |-> <<"0">>],
                [f |-> "s", kind |-> "str", def |-> <<"">>], [f |-> "c", kind |-> "node", def |-> <<"NULL">>],
                [f |-> "kids", kind |-> "kids", def |-> <<>>]>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Proto(ps, name) == ps[CHOOSE i \in 1..Len(ps) : ps[i].name = name]
FieldsOf(ps, type) == IF type = "Leaf" THEN LeafFields ELSE Proto(ps, type).fields
GivenFor(given, f) == {i \in 1..Len(given) : given[i].f = f}
Global(pre, names) == [i \in 1..Len(names) |-> pre \o names[i]]

\* what stands in a body before anything is connected: given values or defaults
RECURSIVE BodyPorts(_, _, _), NodePorts(_, _, _, _)
NodePorts(ps, d, node, pre) ==
    LET abs == pre \o node.n
        fs == FieldsOf(ps, node.type)
        own == [i \in 1..Len(fs) |->
            LET g == GivenFor(node.given, fs[i].f)
            IN [p |-> abs \o "." \o fs[i].f, kind |-> fs[i].kind, def |-> fs[i].def,
                val |-> IF fs[i].f = "kids" /\ node.type = "Leaf" THEN Global(pre, node.kids) ELSE fs[i].def,
                given |-> IF g = {} THEN <<>> ELSE <<node.given[CHOOSE k \in g : TRUE].val>>]]
    IN own \o (IF node.type = "Leaf" THEN <<>> ELSE BodyPorts(ps, Proto(ps, node.type), abs \o "/"))
BodyPorts(ps, d, pre) == Flat([i \in 1..Len(d.nodes) |-> NodePorts(ps, d, d.nodes[i], pre)])
FacePorts(d, abs) == [i \in 1..Len(d.fields) |->
    [p |-> abs \o "." \o d.fields[i].f, kind |-> d.fields[i].kind, def |-> d.fields[i].def, val |-> d.fields[i].def, given |-> <<>>]]
\* connections: s to d, and back if it is an IS
Inner(d, pre) == [i \in 1..Len(d.routes) |->
    [s |-> pre \o d.routes[i].s \o "." \o d.routes[i].sf, d |-> pre \o d.routes[i].d \o "." \o d.routes[i].df, back |-> FALSE]]
Outer(d, abs) == [i \in 1..Len(d.is) |->
    [s |-> abs \o "." \o d.is[i].f, d |-> abs \o "/" \o d.is[i].n \o "." \o d.is[i].nf, back |-> TRUE]]
RECURSIVE BodyEdges(_, _, _)
BodyEdges(ps, d, pre) ==
    Flat([i \in 1..Len(d.nodes) |->
            IF d.nodes[i].type = "Leaf" THEN <<>>
            ELSE LET q == Proto(ps, d.nodes[i].type) abs == pre \o d.nodes[i].n
                 IN Outer(q, abs) \o BodyEdges(ps, q, abs \o "/")])
    \o Inner(d, pre)

PortRange(ports) == {ports[i].p : i \in 1..Len(ports)}
RECURSIVE Reach(_, _)
Reach(edges, S) ==
    LET more == S \cup {edges[i].d : i \in {k \in 1..Len(edges) : edges[k].s \in S}}
                  \cup {edges[i].s : i \in {k \in 1..Len(edges) : edges[k].back /\ edges[k].d \in S}}
    IN IF more = S THEN S ELSE Reach(edges, more)
\* a change of p reaches everything connected
Spread(v, edges, p, val) == LET R == Reach(edges, {p}) IN [q \in DOMAIN v |-> IF q \in R THEN val ELSE v[q]]

\* values of ports before connections
Plain(ports) == [p \in PortRange(ports) |-> ports[CHOOSE i \in 1..Len(ports) : ports[i].p = p].val]

\* an instance starts as its prototype's body, then defaults are stored where
\* its fields are connected to (nodes which are instances pass them on), one
\* connection after the other
RECURSIVE Starts(_, _, _, _, _, _), Made(_, _, _, _), Bodies(_, _, _, _, _), Givens(_, _, _, _)
Starts(ps, v, d, abs, edges, k) ==
    IF k > Len(d.is) THEN v
    ELSE LET i == d.is[k]
             dest == abs \o "/" \o i.n \o "." \o i.nf
             field == d.fields[CHOOSE j \in 1..Len(d.fields) : d.fields[j].f = i.f]
             node == d.nodes[CHOOSE j \in 1..Len(d.nodes) : d.nodes[j].n = i.n]
         IN Starts(ps, IF field.kind = "event" THEN v
                       ELSE IF node.type = "Leaf" THEN [v EXCEPT ![dest] = field.def]
                       ELSE Spread(v, SubSeq(edges, 1, k) \o SubSeq(edges, Len(d.is) + 1, Len(edges)), dest, field.def),
                   d, abs, edges, k + 1)
\* given values are stored one after the other
Givens(v, ports, edges, k) ==
    IF k > Len(ports) THEN v
    ELSE Givens(IF ports[k].given = <<>> THEN v ELSE Spread(v, edges, ports[k].p, ports[k].given[1]), ports, edges, k + 1)
\* the values of a body which was copied from the template's
AsOf(v, from, pre, p) == LET val == v[from \o SubSeq(p, Len(pre) + 1, Len(p))]
                         IN [i \in 1..Len(val) |-> IF Len(val[i]) > Len(from) /\ SubSeq(val[i], 1, Len(from)) = from
                                                   THEN pre \o SubSeq(val[i], Len(from) + 1, Len(val[i])) ELSE val[i]]
\* v with an instance of d named abs, all its fields at their defaults
Made(ps, v, d, abs) ==
    LET pre == abs \o "/"
        body == PortRange(BodyPorts(ps, d, pre))
        copied == [p \in body |-> AsOf(v, d.name \o "!", pre, p)]
        v1 == Plain(FacePorts(d, abs)) @@ copied @@ v
    IN Starts(ps, v1, d, abs, Outer(d, abs) \o BodyEdges(ps, d, pre), 1)
\* v with the template of d: its nodes one after the other, their given values
Bodies(ps, v, d, k, pre) ==
    IF k > Len(d.nodes) THEN v
    ELSE LET n == d.nodes[k]
             abs == pre \o n.n
             own == NodePorts(ps, d, [n EXCEPT !.type = n.type], pre)
             face == SubSeq(own, 1, Len(FieldsOf(ps, n.type)))
             v1 == IF n.type = "Leaf" THEN Plain(face) @@ v ELSE Made(ps, v, Proto(ps, n.type), abs)
             q == IF n.type = "Leaf" THEN <<>> ELSE Outer(Proto(ps, n.type), abs) \o BodyEdges(ps, Proto(ps, n.type), abs \o "/")
         IN Bodies(ps, Givens(v1, face, q, 1), d, k + 1, pre)

\* ------------------------------------------------------------ state
\* ps: the prototypes; is: what each instance is an instance of, "" if it is not there; v: the ports' values
Insts == RangeOf(InstSeq)
\* (ports, edges and face, what is known of a port, follow from these)
Step0(params) == [ps |-> <<>>, inst |-> [i \in Insts |-> ""], v |-> <<>>, set |-> "", ports |-> <<>>, edges |-> <<>>, face |-> <<>>]

RECURSIVE Declared(_, _, _)
Declared(ps, v, k) == IF k > Len(ps) THEN v ELSE Declared(ps, Bodies(ps, v, ps[k], 1, ps[k].name \o "!"), k + 1)

Ports(st, i) == FacePorts(Proto(st.ps, st.inst[i]), i) \o BodyPorts(st.ps, Proto(st.ps, st.inst[i]), i \o "/")
TemplatePorts(st, k) == BodyPorts(st.ps, st.ps[k], st.ps[k].name \o "!")
There(st) == Keep(InstSeq, {i \in Insts : st.inst[i] # ""})
AllPorts(st) == Flat([k \in 1..Len(st.ps) |-> TemplatePorts(st, k)]) \o Flat([k \in 1..Len(There(st)) |-> Ports(st, There(st)[k])])
AllEdges(st) == Flat([k \in 1..Len(st.ps) |-> BodyEdges(st.ps, st.ps[k], st.ps[k].name \o "!")])
    \o Flat([k \in 1..Len(There(st)) |-> LET i == There(st)[k] d == Proto(st.ps, st.inst[i])
                                         IN Outer(d, i) \o BodyEdges(st.ps, d, i \o "/")])
PortNamed(st, p) == st.face[p]
Derive(st) ==
    LET ports == AllPorts(st)
        names == PortRange(ports)
    IN [st EXCEPT !.ports = SelectSeq(ports, LAMBDA x : x.kind # "event"), !.edges = AllEdges(st),
                  !.face = [p \in names |-> LET k == CHOOSE k \in 1..Len(ports) : ports[k].p = p
                                             IN [kind |-> ports[k].kind, def |-> ports[k].def]]]
\* an event is heard, but nothing is kept
Snap(st) == LET all == st.ports IN [k \in 1..Len(all) |-> all[k].p \o "=" \o Join(st.v[all[k].p], " ")]
Roots(st) == [k \in 1..Len(There(st)) |-> There(st)[k] \o ":" \o Join(Proto(st.ps, st.inst[There(st)[k]]).roots, " ")]
Res2(st, ret) == LET s == Derive(st) IN [st |-> s, obs |-> [ret |-> ret, snap |-> Snap(s), roots |-> Roots(s), apart |-> "yes"]]
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, snap |-> Snap(st), roots |-> Roots(st), apart |-> "yes"]]

RECURSIVE GiveAll(_, _, _, _, _)
GiveAll(v, i, given, edges, k) ==
    IF k > Len(given) THEN v ELSE GiveAll(Spread(v, edges, i \o "." \o given[k].f, given[k].val), i, given, edges, k + 1)
OfInstance(p, i) == Len(p) > Len(i) /\ SubSeq(p, 1, Len(i)) = i /\ SubSeq(p, Len(i) + 1, Len(i) + 1) \in {".", "/"}
Forget(v, i) == [p \in {q \in DOMAIN v : ~OfInstance(q, i)} |-> v[p]]

\* a list with the same members in another order is no change a watcher hears of
SameMembers(x, y) == x # y /\ RangeOf(x) = RangeOf(y)
Elsewhere == {"e1", "e2", "e3"}
Applies(st, op) ==
    CASE op.k = "set" -> PortNamed(st, op.p).kind = "kids" => ~SameMembers(st.v[op.p], op.val)
      [] op.k = "add" -> op.e \notin RangeOf(st.v[op.p])
      [] op.k = "take" -> st.v[op.p] # <<>>
      \* nodes from elsewhere would be copied, too
      [] op.k = "copy" -> \A p \in DOMAIN st.v : OfInstance(p, op.i) => RangeOf(st.v[p]) \cap Elsewhere = {}
      [] OTHER -> TRUE

Step(st, op) ==
    IF ~Applies(st, op) THEN Res(st, "skip") ELSE
    CASE op.k = "declare" ->
            LET s == [st EXCEPT !.ps = op.protos, !.v = Declared(op.protos, <<>>, 1)] IN Res2(s, "ok")
      [] op.k = "make" ->
            LET d == Proto(st.ps, op.type)
                v1 == Made(st.ps, st.v, d, op.i)
                v2 == GiveAll(v1, op.i, op.given, Outer(d, op.i) \o BodyEdges(st.ps, d, op.i \o "/"), 1)
            IN Res2([st EXCEPT !.inst[op.i] = op.type, !.v = v2, !.set = ""], "ok")
      [] op.k = "set" -> Res([st EXCEPT !.v = Spread(@, st.edges, op.p, op.val), !.set = op.p], "ok")
      [] op.k = "add" -> Res([st EXCEPT !.v = Spread(@, st.edges, op.p, Append(st.v[op.p], op.e)), !.set = ""], "ok")
      [] op.k = "take" -> Res([st EXCEPT !.v = Spread(@, st.edges, op.p, SubSeq(st.v[op.p], 1, Len(st.v[op.p]) - 1)), !.set = ""], "ok")
      [] op.k = "del" -> Res([st EXCEPT !.v = Spread(@, st.edges, op.p, PortNamed(st, op.p).def), !.set = ""], "ok")
      [] op.k = "copy" ->
            LET from == {p \in DOMAIN st.v : OfInstance(p, op.i)}
                new == [p \in {op.j \o SubSeq(q, Len(op.i) + 1, Len(q)) : q \in from} |->
                          LET val == st.v[op.i \o SubSeq(p, Len(op.j) + 1, Len(p))]
                          IN [k \in 1..Len(val) |-> IF OfInstance(val[k], op.i) THEN op.j \o SubSeq(val[k], Len(op.i) + 1, Len(val[k])) ELSE val[k]]]
            IN Res2([st EXCEPT !.inst[op.j] = st.inst[op.i], !.v = new @@ @, !.set = ""], "ok")
      [] op.k = "drop" -> Res2([st EXCEPT !.inst[op.i] = "", !.v = Forget(@, op.i), !.set = ""], "ok")

KindOk(kind, val) == CASE kind \in {"int", "event"} -> Len(val) = 1 /\ val[1] \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
                       [] kind = "str" -> Len(val) = 1 /\ val[1] \in {"", "x", "y", "z"}
                       [] kind = "node" -> Len(val) = 1 /\ val[1] \in {"NULL", "e1", "e2", "e3"}
                       [] kind = "kids" -> /\ RangeOf(val) \subseteq {"e1", "e2", "e3"}
                                           /\ Cardinality(RangeOf(val)) = Len(val)
InTemplate(p) == \E k \in 1..Len(p) : SubSeq(p, k, k) = "!"
Enabled(st, op) ==
    CASE op.k = "declare" -> st.ps = <<>>
      [] st.ps = <<>> -> FALSE
      [] op.k = "make" -> st.inst[op.i] = "" /\ \E k \in 1..Len(st.ps) : st.ps[k].name = op.type
      [] op.k = "set" -> IF op.p \in DOMAIN st.v
                         THEN LET port == PortNamed(st, op.p)
                              IN /\ KindOk(port.kind, op.val)
                                 /\ InTemplate(op.p) => port.kind \in {"int", "str", "event"}
                         ELSE FALSE
      [] op.k = "add" -> IF op.p \in DOMAIN st.v THEN PortNamed(st, op.p).kind = "kids" /\ ~InTemplate(op.p) ELSE FALSE
      [] op.k = "take" -> IF op.p \in DOMAIN st.v THEN PortNamed(st, op.p).kind = "kids" /\ ~InTemplate(op.p) ELSE FALSE
      [] op.k = "del" -> IF op.p = st.set /\ st.set # "" THEN PortNamed(st, op.p).kind \in {"int", "str", "node"} ELSE FALSE
      [] op.k = "copy" -> IF op.i = op.j THEN FALSE ELSE st.inst[op.i] # "" /\ st.inst[op.j] = ""
      [] op.k = "drop" -> st.inst[op.i] # ""
TypeOK(st) == DOMAIN st.v = PortRange(AllPorts(st))
=============================================================================
