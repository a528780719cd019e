----------------------------- MODULE WeakList -----------------------------
(* The weak-reference list (vrml/weaklist.py).  Property C08.               *)
(* State: the members, and which objects somebody else keeps alive.         *)
(* Objects of one class compare equal, and are ordered by class.            *)
EXTENDS PyList, TLC

Cls == [a1 |-> 1, a2 |-> 1, b1 |-> 2, c1 |-> 3]
Names == <<"a1", "a2", "b1", "c1">>

Init0 == [list |-> <<>>, alive |-> RangeOf(Names)]

EqFirst(s, x) == IF \E k \in 1..Len(s) : Cls[s[k]] = Cls[x]
                 THEN CHOOSE k \in 1..Len(s) : Cls[s[k]] = Cls[x] /\ \A m \in 1..k-1 : Cls[s[m]] # Cls[x]
                 ELSE 0
EqCount(s, x) == Cardinality({k \in 1..Len(s) : Cls[s[k]] = Cls[x]})

\* lexicographic comparison: -1, 0, 1
RECURSIVE Cmp(_, _)
Cmp(s, t) == IF s = <<>> /\ t = <<>> THEN 0
             ELSE IF s = <<>> THEN -1 ELSE IF t = <<>> THEN 1
             ELSE IF Cls[s[1]] < Cls[t[1]] THEN -1
             ELSE IF Cls[s[1]] > Cls[t[1]] THEN 1 ELSE Cmp(Tail(s), Tail(t))
Bool(b) == IF b THEN "True" ELSE "False"

Live(st) == Keep(Names, st.alive)
Res(st, l, ret) == LET s2 == [st EXCEPT !.list = l]
                   IN [st |-> s2, obs |-> [ret |-> ret, list |-> l, live |-> Live(s2)]]
Same(st, ret) == Res(st, st.list, ret)

DropAll(s, x) == Keep(s, RangeOf(s) \ {x})

Compare(st, op) ==
    LET c == Cmp(st.list, op.v)
    IN CASE op.o = "eq" -> c = 0
         [] op.o = "ne" -> c # 0
         [] op.o = "lt" -> c < 0
         [] op.o = "le" -> c <= 0
         [] op.o = "gt" -> c > 0
         [] op.o = "ge" -> c >= 0

Die(st, x, ret) ==
    LET s2 == [list |-> DropAll(st.list, x), alive |-> st.alive \ {x}]
    IN [st |-> s2, obs |-> [ret |-> ret, list |-> s2.list, live |-> Live(s2)]]

Step(st, op) ==
    LET s == st.list IN
    CASE op.k = "init" -> Res(st, op.v, "ok")
      [] op.k = "die" -> Die(st, op.x, "ok")
      [] op.k = "born" ->   \* a new object of the same name
            LET s2 == [st EXCEPT !.alive = @ \cup {op.x}]
            IN [st |-> s2, obs |-> [ret |-> "ok", list |-> s, live |-> Live(s2)]]
      [] op.k = "iterdie" ->   \* x dies when an iteration has given p members
            LET p == Min2(op.p, Len(s)) rest == DropAll(s, op.x)
            IN Die(st, op.x, Join(SubSeq(s, 1, p) \o SubSeq(rest, op.p + 1, Len(rest)), ","))
      [] op.k = "append" -> Res(st, Append(s, op.x), "ok")
      [] op.k = "insert" -> Res(st, PyInsert(s, op.i, op.x), "ok")
      [] op.k \in {"extend", "iadd"} -> Res(st, s \o op.v, "ok")
      [] op.k = "double" -> Res(st, s \o s, "ok")
      [] op.k = "clear" -> Res(st, <<>>, "ok")
      [] op.k = "reverse" -> Res(st, Reversed(s), "ok")
      [] op.k = "sort" -> Res(st, SortBy(s, Cls), "ok")
      [] op.k = "sortdown" -> Res(st, SortBy(s, [x \in DOMAIN Cls |-> -Cls[x]]), "ok")
      [] op.k = "pop" ->
            LET p == Pos(Len(s), IF op.i = NONE THEN -1 ELSE op.i)
            IN IF p = 0 THEN Same(st, "IndexError") ELSE Res(st, DropAt(s, p), s[p])
      [] op.k = "remove" ->
            LET p == EqFirst(s, op.x)
            IN IF p = 0 THEN Same(st, "ValueError") ELSE Res(st, DropAt(s, p), "ok")
      [] op.k = "del" ->
            LET p == Pos(Len(s), op.i)
            IN IF p = 0 THEN Same(st, "IndexError") ELSE Res(st, DropAt(s, p), "ok")
      [] op.k = "put" ->
            LET p == Pos(Len(s), op.i)
            IN IF p = 0 THEN Same(st, "IndexError") ELSE Res(st, [s EXCEPT ![p] = op.x], "ok")
      [] op.k = "get" ->
            LET p == Pos(Len(s), op.i)
            IN IF p = 0 THEN Same(st, "IndexError") ELSE Same(st, s[p])
      [] op.k = "slice" -> IF op.s = 0 THEN Same(st, "ValueError")
                           ELSE Same(st, Join(Slice(s, op.i, op.j, op.s), ","))
      [] op.k = "dslice" -> IF op.s = 0 THEN Same(st, "ValueError")
                            ELSE Res(st, Drop(s, SlicePos(Len(s), op.i, op.j, op.s)), "ok")
      [] op.k = "pslice" -> IF op.s = 0 \/ ~Fits(s, op.i, op.j, op.s, op.v) THEN Same(st, "ValueError")
                            ELSE Res(st, PutSlice(s, op.i, op.j, op.s, op.v), "ok")
      [] op.k = "index" -> LET p == EqFirst(s, op.x)
                           IN Same(st, IF p = 0 THEN "ValueError" ELSE ToString(p - 1))
      [] op.k = "count" -> Same(st, ToString(EqCount(s, op.x)))
      [] op.k = "in" -> Same(st, Bool(EqFirst(s, op.x) # 0))
      [] op.k = "len" -> Same(st, ToString(Len(s)))
      [] op.k \in {"iter", "getall"} -> Same(st, Join(s, ","))
      [] op.k = "reversed" -> Same(st, Join(Reversed(s), ","))
      [] op.k = "cmp" -> Same(st, Bool(Compare(st, op)))
      [] op.k = "add" -> Same(st, Join(s \o op.v, ",") \o " and " \o Join(s, ","))
      [] op.k = "copy" -> Same(st, Join(Append(s, op.x), ",") \o " and " \o Join(s, ","))

Args(op) == (IF "x" \in DOMAIN op /\ op.k # "born" THEN {op.x} ELSE {})
            \cup (IF "v" \in DOMAIN op THEN RangeOf(op.v) ELSE {})
Step0(params) == Init0
Enabled(st, op) == Args(op) \subseteq st.alive
\* C08: only live objects are members
TypeOK(st) == RangeOf(st.list) \subseteq st.alive
=============================================================================
