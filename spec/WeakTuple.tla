----------------------------- MODULE WeakTuple -----------------------------
(* The weak-reference tuple (vrml/weaktuple.py).  Property C09.             *)
(* State: the names of the members, which objects are held elsewhere         *)
(* (alive), and which are held by the result that was kept last (held).      *)
EXTENDS PyList, TLC

Names == <<"t1", "t2", "t3", "t4">>
Init0 == [items |-> <<>>, alive |-> RangeOf(Names), held |-> {}]
Living(st) == st.alive \cup st.held

Ok(st, pos) == \A k \in 1..Len(pos) : st.items[pos[k]] \in Living(st)
All(st) == RangeOf(st.items) \subseteq Living(st)
Live(st) == Keep(Names, Living(st))
\* every position by itself
Cells(st) == [k \in 1..Len(st.items) |-> IF st.items[k] \in Living(st) THEN st.items[k] ELSE "ReferenceError"]
Bool(b) == IF b THEN "True" ELSE "False"

Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, cells |-> Cells(st), valid |-> Bool(All(st)), live |-> Live(st)]]
Need(st, ok, ret) == Res(st, IF ok THEN ret ELSE "ReferenceError")

FirstDead(st) == LET d == {k \in 1..Len(st.items) : st.items[k] \notin Living(st)}
                 IN IF d = {} THEN Len(st.items) + 1 ELSE CHOOSE k \in d : \A m \in d : k <= m

Step(st, op) ==
    LET s == st.items IN
    CASE op.k = "new" -> Res([st EXCEPT !.items = op.v], "ok")
      [] op.k = "die" -> Res([st EXCEPT !.alive = @ \ {op.x}], "ok")
      [] op.k = "len" -> Res(st, ToString(Len(s)))
      [] op.k = "get" -> LET p == Pos(Len(s), op.i)
                         IN IF p = 0 THEN Res(st, "IndexError") ELSE Need(st, Ok(st, <<p>>), s[p])
      [] op.k = "slice" -> IF op.s = 0 THEN Res(st, "ValueError")
                           ELSE LET pos == SlicePos(Len(s), op.i, op.j, op.s)
                                IN Need(st, Ok(st, pos), Join(Pick(s, pos), ","))
      [] op.k = "iter" ->   \* what an iteration gives before it ends or fails
            LET d == FirstDead(st)
            IN Res(st, Join(SubSeq(s, 1, d - 1), ",") \o (IF d <= Len(s) THEN " ReferenceError" ELSE ""))
      [] op.k = "in" -> LET p == FirstPos(s, op.x)
                        IN IF p # 0 /\ p < FirstDead(st) THEN Res(st, "True")
                           ELSE Need(st, All(st), "False")
      [] op.k = "count" -> Need(st, All(st), ToString(Count(s, op.x)))
      [] op.k = "add" -> Need(st, All(st), Join(s \o op.v, ","))
      \* sums, slices and lists made of it are kept: they hold their members
      [] op.k = "hold" -> LET pos == IF op.how = "slice" THEN SlicePos(Len(s), op.i, NONE, NONE) ELSE [k \in 1..Len(s) |-> k]
                              got == Pick(s, pos) \o (IF op.how = "add" THEN op.v ELSE <<>>)
                          IN IF Ok(st, pos) THEN Res([st EXCEPT !.held = RangeOf(got)], Join(got, ","))
                             ELSE Res(st, "ReferenceError")
      [] op.k = "forget" -> Res([st EXCEPT !.held = {}], "ok")
      [] op.k = "eq" -> Need(st, All(st), Bool(s = op.v))
      [] op.k = "ne" -> Need(st, All(st), Bool(s # op.v))

Args(op) == (IF "x" \in DOMAIN op THEN {op.x} ELSE {}) \cup (IF "v" \in DOMAIN op THEN RangeOf(op.v) ELSE {})
Step0(params) == Init0
Enabled(st, op) == Args(op) \subseteq st.alive
TypeOK(st) == TRUE
=============================================================================
