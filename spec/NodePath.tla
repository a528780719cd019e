------------------------------ MODULE NodePath ------------------------------
(* Scenegraph paths (vrml/nodepath.py, vrml/vrml97/nodepath.py).            *)
(* Property C23.                                                            *)
(*                                                                          *)
(* A path is a record: kind ("strong" or "weak"), its nodes, the path it was *)
(* made from by + (0: none), whether the program still holds it, whether it *)
(* was marked broken.  A path keeps the path it was made from alive, but    *)
(* not the ones made from it; a weak path does not keep its nodes alive.    *)
EXTENDS PyList, TLC

CONSTANTS NodeSeq
Nodes == RangeOf(NodeSeq)

Init0 == [p |-> <<>>, dead |-> {}]

RECURSIVE Alive(_, _)
Alive(ps, i) == ps[i].held \/ \E j \in 1..Len(ps) : ps[j].parent = i /\ Alive(ps, j)
Usable(st, i) == i \in 1..Len(st.p) /\ st.p[i].held

Name(i) == "p" \o ToString(i)
RECURSIVE Commas(_, _)
Commas(s, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE ",") \o s[k] \o Commas(s, k + 1)

\* the paths made from path i which are alive, in order
RECURSIVE Kids(_, _, _)
Kids(ps, i, j) == IF j > Len(ps) THEN <<>>
                  ELSE (IF ps[j].parent = i /\ Alive(ps, j) THEN <<j>> ELSE <<>>) \o Kids(ps, i, j + 1)
Names(s) == [k \in 1..Len(s) |-> Name(s[k])]

RECURSIVE SnapFrom(_, _)
SnapFrom(ps, i) ==
    IF i > Len(ps) THEN <<>>
    ELSE (IF Alive(ps, i)
          THEN <<Name(i) \o " " \o ps[i].kind \o " [" \o Commas(ps[i].items, 1) \o "]"
                 \o (IF ps[i].broken THEN " broken" ELSE "")
                 \o " children " \o Commas(Names(Kids(ps, i, 1)), 1)>>
          ELSE <<>>) \o SnapFrom(ps, i + 1)
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, snap |-> SnapFrom(st.p, 1)]]

Path(kind, items, parent) == [kind |-> kind, items |-> items, parent |-> parent, held |-> TRUE, broken |-> FALSE]
\* paths nobody holds any more know nothing
Collect(ps) == [i \in 1..Len(ps) |-> IF Alive(ps, i) THEN ps[i] ELSE [ps[i] EXCEPT !.items = <<>>, !.broken = FALSE]]
WithNew(st, path) == [st EXCEPT !.p = Append(@, path)]

RECURSIVE Prefix(_, _, _)
Prefix(a, b, k) == IF k > Len(a) \/ k > Len(b) \/ a[k] # b[k] THEN SubSeq(a, 1, k - 1) ELSE Prefix(a, b, k + 1)

RECURSIVE Below(_, _)
Below(ps, i) == {i} \cup UNION {Below(ps, j) : j \in {j \in 1..Len(ps) : ps[j].parent = i /\ Alive(ps, j)}}

Gone(s, n) == SelectSeq(s, LAMBDA x : x # n)
Shown(kind, s) == <<kind>> \o s

Step(st, op) ==
    CASE op.k = "new" -> Res(WithNew(st, Path(op.kind, op.items, 0)), <<"ok">>)
      \* + a node, a list of nodes or another path
      [] op.k = "add" -> Res(WithNew(st, Path(st.p[op.i].kind, st.p[op.i].items \o op.items, op.i)), <<"ok">>)
      [] op.k = "addpath" -> Res(WithNew(st, Path(st.p[op.i].kind, st.p[op.i].items \o st.p[op.j].items, op.i)), <<"ok">>)
      [] op.k = "slice" -> Res(st, Shown(st.p[op.i].kind, Slice(st.p[op.i].items, op.a, op.b, op.c)))
      [] op.k = "item" -> LET s == st.p[op.i].items k == Pos(Len(s), op.a)
                          IN Res(st, IF k = 0 THEN <<"IndexError">> ELSE <<s[k]>>)
      [] op.k = "iter" -> Res(st, st.p[op.i].items)
      [] op.k = "common" -> Res(st, Shown(st.p[op.i].kind, Prefix(st.p[op.i].items, st.p[op.j].items, 1)))
      [] op.k = "eq" -> Res(st, IF st.p[op.i].items = st.p[op.j].items THEN <<"equal">> ELSE <<"different">>)
      \* with a list or tuple of nodes
      [] op.k = "eqseq" -> Res(st, IF st.p[op.i].items = op.items THEN <<"equal">> ELSE <<"different">>)
      [] op.k = "other" -> Res(st, <<"different">>)   \* with what is not a sequence
      [] op.k = "children" -> Res(st, Names(Kids(st.p, op.i, 1)))
      [] op.k = "invalidate" -> LET b == Below(st.p, op.i)
                                IN Res([st EXCEPT !.p = [i \in 1..Len(@) |-> IF i \in b THEN [@[i] EXCEPT !.broken = TRUE] ELSE @[i]]],
                                       <<"ok">>)
      [] op.k = "drop" -> Res([st EXCEPT !.p = Collect([@ EXCEPT ![op.i].held = FALSE])], <<"ok">>)
      \* the last reference to a node from elsewhere goes away
      [] op.k = "kill" -> Res([p |-> [i \in 1..Len(st.p) |-> [st.p[i] EXCEPT !.items = Gone(@, op.n)]],
                               dead |-> st.dead \cup {op.n}], <<"ok">>)

Step0(params) == Init0
Live(st) == Nodes \ st.dead
Enabled(st, op) ==
    CASE op.k \in {"new", "eqseq", "add"} -> /\ RangeOf(op.items) \subseteq Live(st)
                                             /\ op.k # "new" => Usable(st, op.i)
      [] op.k \in {"addpath", "common", "eq"} -> Usable(st, op.i) /\ Usable(st, op.j)
      [] op.k = "kill" -> /\ op.n \in Live(st)
                          /\ \A i \in 1..Len(st.p) : st.p[i].kind = "strong" => op.n \notin RangeOf(st.p[i].items)
      [] OTHER -> Usable(st, op.i)
TypeOK(st) == \A i \in 1..Len(st.p) :
    /\ RangeOf(st.p[i].items) \subseteq Live(st)
    /\ st.p[i].parent < i
    /\ st.p[i].parent # 0 => st.p[st.p[i].parent].kind = st.p[i].kind
    /\ (st.p[i].parent # 0 /\ Alive(st.p, i)) => Alive(st.p, st.p[i].parent)
=============================================================================
