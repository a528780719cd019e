-------------------------------- MODULE Null --------------------------------
(* The one NULL node (vrml/node.py).  Property C28.                         *)
(*                                                                          *)
(* A node with an SFNode field (sf), an SFNode field which may not be NULL  *)
(* (must) and an MFNode field (kids), and Python's own list and set, hold   *)
(* nodes by name.  "NULL" is the NULL node; "other" a node of a prototype   *)
(* which is called NULL as well; "none" is Python's None.                   *)
EXTENDS PyList, TLC

Ordinary == {"n1", "n2", "other"}
Members == {"NULL"} \cup Ordinary
\* what may be stored in a node field beside nodes, and what is stored then
Spelled == [x \in {"none", "[NULL]", "[none]", "(n1)"} |->
            CASE x = "(n1)" -> "n1" [] OTHER -> "NULL"]
Rejected == {"zero", "text", "pair", "[]", "false"}
Things == Members \cup DOMAIN Spelled \cup Rejected

NodeFor(x) == IF x \in DOMAIN Spelled THEN Spelled[x] ELSE x
\* a field which does not allow NULL does not take None for it, the NULL node is a node
MustTake(x) == x \in Members \cup {"[NULL]", "(n1)"}

\* what the copies of a holder hold: NULL, or a copy of a node, the same wherever the original is the same
Copied(x) == IF x = "NULL" THEN "NULL" ELSE "copy of " \o x
Copies(s) == [q \in 1..Len(s) |-> Copied(s[q])]

Order == <<"NULL", "n1", "n2", "other">>
Sorted(s) == Keep(Order, s)
Snap(st) == [sf |-> st.sf, must |-> st.must, kids |-> st.kids, list |-> st.list, set |-> Sorted(st.set)]
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, snap |-> Snap(st)]]
Fail(st, err) == Res(st, <<err>>)

\* a sequence operation on the kids or the list
Seq1(st, w) == IF w = "kids" THEN st.kids ELSE st.list
With(st, w, s) == IF w = "kids" THEN [st EXCEPT !.kids = s] ELSE [st EXCEPT !.list = s]

Step(st, op) ==
    CASE op.k = "eq" ->
            \* NULL == x, x == NULL, not (NULL != x), not (x != NULL), is it found in [x]?
            LET b == IF op.x = "NULL" THEN "yes" ELSE "no" IN Res(st, <<b, b, b, b, b>>)
      [] op.k = "truth" -> Res(st, IF op.x = "NULL" THEN <<"no">> ELSE <<"yes">>)
      \* how a NULL is copied or comes about does not matter
      [] op.k = "another" -> Res(st, <<"NULL">>)
      [] op.k = "texts" -> Res(st, <<"NULL", "NULL">>)
      [] op.k = "put" ->
            IF op.x \in Rejected THEN Fail(st, "ValueError")
            ELSE IF op.f = "must" THEN IF MustTake(op.x) THEN Res([st EXCEPT !.must = NodeFor(op.x)], <<"ok">>)
                                       ELSE Fail(st, "ValueError")
            ELSE Res([st EXCEPT !.sf = NodeFor(op.x)], <<"ok">>)
      [] op.k = "del" -> Res(IF op.f = "must" THEN [st EXCEPT !.must = "NULL"] ELSE [st EXCEPT !.sf = "NULL"], <<"ok">>)
      \* the whole list, given as a sequence of what may be stored in a node field, or as one node
      [] op.k = "assign" ->
            IF \E q \in 1..Len(op.v) : op.v[q] \in Rejected THEN Fail(st, "ValueError")
            ELSE Res([st EXCEPT !.kids = [q \in 1..Len(op.v) |-> NodeFor(op.v[q])]], <<"ok">>)
      [] op.k = "single" -> Res([st EXCEPT !.kids = IF op.x = "none" THEN <<>> ELSE <<op.x>>], <<"ok">>)
      [] op.k = "append" -> Res(With(st, op.w, Append(Seq1(st, op.w), op.x)), <<"ok">>)
      [] op.k = "remove" -> LET s == Seq1(st, op.w)
                                p == FirstPos(s, op.x)
                            IN IF p = 0 THEN Fail(st, "ValueError") ELSE Res(With(st, op.w, DropAt(s, p)), <<"ok">>)
      [] op.k = "item" -> LET s == Seq1(st, op.w)
                              p == Pos(Len(s), op.i)
                          IN IF p = 0 THEN Fail(st, "IndexError") ELSE Res(With(st, op.w, [s EXCEPT ![p] = op.x]), <<"ok">>)
      [] op.k = "slice" -> Res(With(st, op.w, PutSlice(Seq1(st, op.w), op.i, op.j, NONE, op.v)), <<"ok">>)
      \* the first place of x, how often it is there, whether it is
      [] op.k = "find" -> LET s == Seq1(st, op.w)
                              p == FirstPos(s, op.x)
                          IN Res(st, <<IF p = 0 THEN "ValueError" ELSE ToString(p - 1), ToString(Count(s, op.x)),
                                       IF p = 0 THEN "no" ELSE "yes">>)
      [] op.k = "true" -> Res(st, Keep(Seq1(st, op.w), Ordinary))
      [] op.k = "add" -> Res([st EXCEPT !.set = @ \cup {op.x}], <<"ok">>)
      [] op.k = "discard" -> Res([st EXCEPT !.set = @ \ {op.x}], <<"ok">>)
      [] op.k = "has" -> Res(st, <<IF op.x \in st.set THEN "yes" ELSE "no">>)
      [] op.k = "copy" -> Res(st, <<Copied(st.sf), Copied(st.must)>> \o Copies(st.kids))

Init0 == [sf |-> "NULL", must |-> "NULL", kids |-> <<>>, list |-> <<>>, set |-> {}]
Step0(params) == Init0
Enabled(st, op) ==
    CASE op.k = "append" -> op.x \in Members
      [] OTHER -> TRUE
TypeOK(st) == /\ st.sf \in Members /\ st.must \in Members /\ RangeOf(st.kids) \subseteq Members
              /\ RangeOf(st.list) \subseteq Members /\ st.set \subseteq Members
=============================================================================
