------------------------------- MODULE Protos -------------------------------
(* Prototype names and their scopes (vrml/vrml97/scenegraph.py,             *)
(* vrml/protonamespace.py, vrml/vrml97/parseprocessor.py).  Property C18.   *)
(*                                                                          *)
(* A scenegraph is a record: the enclosing one (0: none), whether it is     *)
(* still there, and the definition it has for each name ("": none).  A      *)
(* definition is known by a string, for parsed ones their number and what   *)
(* their bodies consist of; the standard nodes are all "std".               *)
EXTENDS PyList, TLC

CONSTANTS NameSeq, StdNames
ProtoNames == RangeOf(NameSeq)
Empty == [n \in ProtoNames |-> ""]
Standard == [n \in ProtoNames |-> IF n \in StdNames THEN "std" ELSE ""]
Init0 == <<>>

\* what the name means in the innermost of the scopes, if anything
RECURSIVE Lookup(_, _)
Lookup(scopes, n) == IF scopes = <<>> THEN ""
                     ELSE IF scopes[Len(scopes)][n] # "" THEN scopes[Len(scopes)][n]
                     ELSE Lookup(SubSeq(scopes, 1, Len(scopes) - 1), n)

RECURSIVE Spaced(_, _)
Spaced(s, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE " ") \o s[k] \o Spaced(s, k + 1)

\* reading a text: items are nodes (with declarations inside), PROTOs and
\* EXTERNPROTOs.  w: the scopes, the nodes found in each, number of declarations, whether all is well
Enter(w) == [w EXCEPT !.scopes = Append(@, Empty), !.found = Append(@, <<>>)]
DefineIn(w, n, d) == [w EXCEPT !.scopes[Len(w.scopes)][n] = d]
Leave(w, n, num) ==
    LET k == Len(w.scopes)
        label == ToString(num) \o "[" \o Spaced(w.found[k], 1) \o "]"
    IN DefineIn([w EXCEPT !.scopes = SubSeq(@, 1, k - 1), !.found = SubSeq(@, 1, k - 1)], n, label)
RECURSIVE Walk(_, _)
Walk(w, items) ==
    IF items = <<>> \/ ~w.ok THEN w
    ELSE LET i == items[1]
             num == w.count + 1
         IN Walk(CASE i.k = "node" ->
                        LET d == Lookup(w.scopes, i.n)
                        IN IF d = "" THEN [w EXCEPT !.ok = FALSE]
                           ELSE Walk([w EXCEPT !.found[Len(w.found)] = Append(@, d)], i.body)
                   [] i.k = "extern" -> DefineIn([w EXCEPT !.count = num], i.n, ToString(num) \o "ext")
                   \* a prototype is not known in its own body
                   [] i.k = "proto" ->
                        LET in == Walk(Enter([w EXCEPT !.count = num]), i.body)
                        IN IF in.ok THEN Leave(in, i.n, num) ELSE in,
                 Tail(items))
Read(items) == Walk([scopes |-> <<Standard>>, found |-> << <<>> >>, count |-> 0, ok |-> TRUE], items)

Scene(outer, protos) == [outer |-> outer, there |-> TRUE, protos |-> protos]
\* an enclosing scenegraph which is gone does not count
RECURSIVE Chain(_, _)
Chain(st, i) == (IF st[i].outer # 0 /\ st[st[i].outer].there THEN Chain(st, st[i].outer) ELSE <<>>) \o <<st[i].protos>>
Look(st, i, n) == Lookup(Chain(st, i), n)

RECURSIVE Means(_, _, _), SnapFrom(_, _)
Means(st, i, k) == IF k > Len(NameSeq) THEN <<>>
                   ELSE <<NameSeq[k] \o "=" \o Look(st, i, NameSeq[k])>> \o Means(st, i, k + 1)
SnapFrom(st, i) == IF i > Len(st) THEN <<>>
                   ELSE (IF st[i].there THEN <<ToString(i) \o ": " \o Spaced(Means(st, i, 1), 1)>> ELSE <<>>) \o SnapFrom(st, i + 1)
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, snap |-> SnapFrom(st, 1)]]

Step(st, op) ==
    CASE op.k = "new" -> Res(Append(st, Scene(op.outer, Empty)), <<"ok">>)
      [] op.k = "add" -> Res([st EXCEPT ![op.i].protos[op.n] = op.d], <<"ok">>)
      [] op.k = "copy" -> Res(Append(st, st[op.i]), <<"ok">>)
      [] op.k = "drop" -> Res([st EXCEPT ![op.i].there = FALSE], <<"ok">>)
      [] op.k = "parse" ->
            LET w == Read(op.items)
            IN IF w.ok THEN Res(Append(st, Scene(0, w.scopes[1])), w.found[1]) ELSE Res(st, <<"NameError">>)
Step0(params) == Init0
There(st, i) == i \in 1..Len(st) /\ st[i].there
Enabled(st, op) ==
    CASE op.k = "new" -> op.outer = 0 \/ There(st, op.outer)
      [] op.k = "parse" -> TRUE
      [] OTHER -> There(st, op.i)
TypeOK(st) == \A i \in 1..Len(st) : st[i].outer < i
=============================================================================
