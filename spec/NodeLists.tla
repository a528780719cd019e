----------------------------- MODULE NodeLists -----------------------------
(* Node-list fields (vrml/node.py _MFNode, vrml/olist.py).  Property C07.   *)
(* State: for every node and field the list, or unset.                      *)
EXTENDS PyList, TLC

CONSTANTS NodeSeq, FieldSeq

OL == INSTANCE OList

Nodes == RangeOf(NodeSeq)
Flds == RangeOf(FieldSeq)
Unset == <<"-">>

\* field "b" has a default with one node in it
DefaultOf(f) == IF f = "b" THEN <<"d1">> ELSE <<>>

Init0 == [n \in Nodes |-> [f \in Flds |-> Unset]]

Read(st, n, f) == IF st[n][f] = Unset THEN DefaultOf(f) ELSE st[n][f]

Snap(st) == [k \in 1..(Len(NodeSeq) * Len(FieldSeq)) |->
        LET n == NodeSeq[((k-1) \div Len(FieldSeq)) + 1]
            f == FieldSeq[((k-1) % Len(FieldSeq)) + 1]
        IN n \o "." \o f \o "=" \o Join(st[n][f], ",")]

\* a watcher of n.f must have been told, at last about the final contents
Told(st, s2, n, f) ==
    IF RangeOf(Read(st, n, f)) = RangeOf(Read(s2, n, f)) THEN <<>>
    ELSE <<n \o "." \o f \o " told " \o Join(Read(s2, n, f), ",")>>

Res(st, s2, ret, notes) == [st |-> s2, obs |-> [ret |-> ret, snap |-> Snap(s2), notes |-> notes]]
Fail(st, err) == Res(st, st, err, <<>>)

\* what copying makes of a member
CopyName(x) == IF x \in {"c1", "c2", "c3", "q1", "q2", "d1"} THEN "k" \o x ELSE x

Store(st, n, f, vals) ==
    LET s2 == [st EXCEPT ![n][f] = vals] IN Res(st, s2, "ok", Told(st, s2, n, f))

\* the list field as it is after a read
Change(st, op) ==
    LET cur == Read(st, op.n, op.f)
        r == OL!Step(cur, op.o)
        s2 == [st EXCEPT ![op.n][op.f] = r.st]
        bad == r.obs.ret \in {"IndexError", "ValueError", "TypeError"}
    IN Res(st, s2, IF bad THEN r.obs.ret ELSE "ok", Told(st, s2, op.n, op.f))

Step(st, op) ==
    CASE op.k = "read" ->
            LET s2 == [st EXCEPT ![op.n][op.f] = Read(st, op.n, op.f)]
            IN Res(st, s2, Join(Read(st, op.n, op.f), ","), <<>>)
      [] op.k = "assign" -> Store(st, op.n, op.f, op.v)
      [] op.k = "bad" -> Fail(st, "ValueError")
      [] op.k = "from" ->
            LET v == Read(st, op.m, op.g)
                s1 == [st EXCEPT ![op.m][op.g] = v]
                s2 == [s1 EXCEPT ![op.n][op.f] = v]
            IN Res(st, s2, "ok", Told(st, s2, op.n, op.f))
      [] op.k = "del" ->
            IF st[op.n][op.f] = Unset THEN Fail(st, "AttributeError")
            ELSE Res(st, [st EXCEPT ![op.n][op.f] = Unset], "ok",
                     <<op.n \o "." \o op.f \o " deleted">>)
      [] op.k = "change" -> Change(st, op)
      [] op.k = "new" ->   \* node n replaced by a new one
            Res(st, [st EXCEPT ![op.n] = [f \in Flds |-> IF f \in DOMAIN op.vals THEN op.vals[f] ELSE Unset]],
                "ok", <<>>)
      [] op.k = "parse" ->   \* all fields of the parsed node are read
            Res(st, [st EXCEPT ![op.n] = [f \in Flds |-> IF f = op.f THEN <<"q1", "q2">> ELSE DefaultOf(f)]],
                "ok", <<>>)
      [] op.k = "copy" ->  \* node n replaced by a copy of node m
            Res(st, [st EXCEPT ![op.n] = [f \in Flds |->
                        IF st[op.m][f] = Unset THEN Unset
                        ELSE [k \in 1..Len(st[op.m][f]) |-> CopyName(st[op.m][f][k])]]],
                "ok", <<>>)

Step0(params) == Init0
Enabled(st, op) == TRUE
TypeOK(st) == TRUE
=============================================================================
