---------------------------- MODULE SceneGraph ----------------------------
(* DEF names and root references (vrml/vrml97/scenegraph.py, vrml/node.py). *)
(* Properties C16 and C17.                                                  *)
(*                                                                          *)
(* live: the scenegraphs there are; table[s]: the node registered under     *)
(* each DEF name in s; kids[x]: what x (a node or scenegraph) holds; root   *)
(* and def of each node.  "" stands for no scenegraph, node or name.        *)
(* A node only holds nodes after it in NodeSeq, so there are no cycles.     *)
(* Some nodes hold the nodes which are the defaults of their fields.         *)
(* seen: whether the roots and names have been read since the last change.   *)
EXTENDS PyList, TLC

CONSTANTS NodeSeq, SceneSeq, NameSeq,
          Preset   \* node -> what its fields have by default, for those where that is anything
Nodes == RangeOf(NodeSeq)
Scenes == RangeOf(SceneSeq)
DefNames == RangeOf(NameSeq)
Rank(x) == FirstPos(NodeSeq, x)

NoKids == [one |-> "", many |-> <<>>]
NoTable == [d \in DefNames |-> ""]
Init0 == [live |-> {}, table |-> [s \in Scenes |-> NoTable],
          kids |-> [x \in Nodes \cup Scenes |-> IF x \in DOMAIN Preset THEN Preset[x] ELSE NoKids],
          root |-> [n \in Nodes |-> ""], def |-> [n \in Nodes |-> ""],
          seen |-> 1]

Held(st, x) == RangeOf(st.kids[x].many) \cup (IF st.kids[x].one = "" THEN {} ELSE {st.kids[x].one})
RECURSIVE Below(_, _)
Below(st, x) == {x} \cup UNION {Below(st, y) : y \in Held(st, x)}
Named(st, set) == {n \in set : st.def[n] # ""}
\* no two of them have the same DEF name
Distinct(st, set) == \A m, n \in Named(st, set) : m # n => st.def[m] # st.def[n]

\* all of the nodes get the root s, which registers their names
Adopt(st, set, s) ==
    [st EXCEPT !.root = [n \in Nodes |-> IF n \in set THEN s ELSE @[n]],
               !.table[s] = [d \in DefNames |-> IF \E n \in set : st.def[n] = d THEN CHOOSE n \in set : st.def[n] = d ELSE @[d]]]
\* the nodes of vs without a root get that of their new holder, with all below them, one after the other
RECURSIVE Attach(_, _, _)
Attach(st, vs, s) == IF vs = <<>> \/ s = "" THEN st
                     ELSE Attach(IF st.root[vs[1]] = "" THEN Adopt(st, Below(st, vs[1]), s) ELSE st, Tail(vs), s)
RootOf(st, x) == IF x \in Scenes THEN x ELSE st.root[x]

RECURSIVE Lines(_, _), Tables(_, _, _), TableOf(_, _, _)
Lines(st, k) == IF k > Len(NodeSeq) THEN <<>>
                ELSE <<NodeSeq[k] \o " root " \o st.root[NodeSeq[k]] \o " DEF " \o st.def[NodeSeq[k]]>> \o Lines(st, k + 1)
TableOf(st, s, k) == IF k > Len(NameSeq) THEN ""
                     ELSE " " \o NameSeq[k] \o "=" \o st.table[s][NameSeq[k]] \o TableOf(st, s, k + 1)
Tables(st, k, dummy) == IF k > Len(SceneSeq) THEN <<>>
                        ELSE (IF SceneSeq[k] \in st.live THEN <<SceneSeq[k] \o TableOf(st, SceneSeq[k], 1)>> ELSE <<>>)
                             \o Tables(st, k + 1, dummy)
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, names |-> Tables(st, 1, 0), nodes |-> Lines(st, 1)]]
Ok(st) == Res(st, <<"ok">>)

Step1(st, op) ==
    CASE op.k = "scene" ->      \* a new scenegraph made with these children, which get it as root
            LET s1 == [st EXCEPT !.live = @ \cup {op.s}, !.kids[op.s] = [one |-> "", many |-> op.kids]]
            IN Ok(Adopt(s1, UNION {Below(st, v) : v \in RangeOf(op.kids)}, op.s))
      [] op.k = "drop" ->       \* the last reference to it from elsewhere goes away
            Res([st EXCEPT !.live = @ \ {op.s}, !.table[op.s] = NoTable, !.kids[op.s] = NoKids,
                           !.root = [n \in Nodes |-> IF @[n] = op.s THEN "" ELSE @[n]]], <<"gone">>)
      [] op.k = "one" -> Ok(Attach([st EXCEPT !.kids[op.x].one = op.n], IF op.n = "" THEN <<>> ELSE <<op.n>>, RootOf(st, op.x)))
      [] op.k = "many" -> Ok(Attach([st EXCEPT !.kids[op.x].many = op.kids], op.kids, RootOf(st, op.x)))
      \* in place: the new member keeps its root
      [] op.k = "append" -> Ok([st EXCEPT !.kids[op.x].many = Append(@, op.n)])
      [] op.k = "read" -> Res(st, <<st.kids[op.x].one>> \o st.kids[op.x].many)
      [] op.k = "root" -> Ok(Adopt(st, Below(st, op.n), op.s))
      [] op.k = "unroot" -> Ok([st EXCEPT !.root = [n \in Nodes |-> IF n \in Below(st, op.n) THEN "" ELSE @[n]]])
      [] op.k = "reg" ->
            LET old == st.def[op.n]
                t == [d \in DefNames |-> IF d = op.d THEN op.n ELSE IF d = old /\ st.table[op.s][d] = op.n THEN "" ELSE st.table[op.s][d]]
            IN Ok([st EXCEPT !.table[op.s] = t, !.def[op.n] = op.d])
      \* directly: nothing is registered, or released
      [] op.k = "def" -> Ok([st EXCEPT !.def[op.n] = op.d])

\* a step after which nobody looks (look = 0): what is there then is there without having been asked for
Looks(op) == IF "look" \in DOMAIN op THEN op.look ELSE 1
Step(st, op) == LET r == Step1(st, op)
                    n == [r.st EXCEPT !.seen = Looks(op)]
                IN IF Looks(op) = 1 THEN [r EXCEPT !.st = n] ELSE [st |-> n, obs |-> [ret |-> r.obs.ret, names |-> <<>>, nodes |-> <<>>]]
Step0(params) == Init0
Over(x, vs) == \A v \in RangeOf(vs) : x \in Scenes \/ Rank(v) > Rank(x)
There(st, x) == x \in Nodes \/ x \in st.live
RECURSIVE Sure(_, _, _)
Sure(st, vs, s) ==
    IF vs = <<>> \/ s = "" THEN TRUE
    ELSE IF st.root[vs[1]] # "" THEN Sure(st, Tail(vs), s)
    ELSE Distinct(st, Below(st, vs[1])) /\ Sure(Adopt(st, Below(st, vs[1]), s), Tail(vs), s)
Enabled(st, op) ==
    CASE op.k = "scene" -> op.s \notin st.live /\ Distinct(st, UNION {Below(st, v) : v \in RangeOf(op.kids)})
      [] op.k = "drop" -> op.s \in st.live
      [] op.k = "one" -> There(st, op.x) /\ op.x \in Nodes /\ (IF op.n = "" THEN TRUE ELSE Over(op.x, <<op.n>>) /\ Sure(st, <<op.n>>, RootOf(st, op.x)))
      [] op.k = "many" -> There(st, op.x) /\ Over(op.x, op.kids) /\ Sure([st EXCEPT !.kids[op.x].many = op.kids], op.kids, RootOf(st, op.x))
      [] op.k = "append" -> There(st, op.x) /\ Over(op.x, <<op.n>>)
      [] op.k = "read" -> There(st, op.x)
      [] op.k = "root" -> op.s \in st.live /\ Distinct(st, Below(st, op.n))
      [] op.k = "reg" -> op.s \in st.live
      [] OTHER -> TRUE
TypeOK(st) == /\ \A n \in Nodes : st.root[n] \in st.live \cup {""}
              /\ \A s \in Scenes \ st.live : st.table[s] = NoTable
=============================================================================
