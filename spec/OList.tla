------------------------------ MODULE OList ------------------------------
(* The observable list (vrml/olist.py).  Property C06.                      *)
(* State: the contents, a sequence of names of children.                    *)
EXTENDS PyList, TLC

\* an effect: new contents, what was announced as added and as removed
\* every event comes when the change is complete
When(v, s) == [k \in 1..Len(v) |-> v[k] \o " when " \o Join(s, ",")]
Obs(s, ret, added, removed) ==
    [ret |-> ret, list |-> s,
     addeds |-> added, dels |-> removed,
     news |-> When(added, s), olds |-> When(removed, s), parents |-> When(added, s), orphans |-> When(removed, s)]
Res(s, ret, added, removed) == [st |-> s, obs |-> Obs(s, ret, added, removed)]
Fail(s, err) == Res(s, err, <<>>, <<>>)

\* the elements a slice assignment announces
Added(prev, vals) == Keep(vals, RangeOf(vals) \ RangeOf(prev))
Removed(prev, vals) == Minus(prev, Keep(vals, RangeOf(prev)))

Assign(s, i, j, k, vals) ==
    IF ~Fits(s, i, j, k, vals) THEN Fail(s, "ValueError")
    ELSE LET prev == Slice(s, i, j, k)
         IN Res(PutSlice(s, i, j, k, vals), "ok", Added(prev, vals), Removed(prev, vals))

Step(s, op) ==
    CASE op.k = "append" -> Res(Append(s, op.x), "ok", <<op.x>>, <<>>)
      [] op.k = "insert" -> Res(PyInsert(s, op.i, op.x), "ok", <<op.x>>, <<>>)
      [] op.k \in {"extend", "iadd"} -> Res(s \o op.v, "ok", op.v, <<>>)
      [] op.k = "imul" -> IF op.i < 1 THEN Res(<<>>, "ok", <<>>, s)
                          ELSE LET more == Repeat(s, op.i - 1) IN Res(s \o more, "ok", more, <<>>)
      [] op.k = "clear" -> Res(<<>>, "ok", <<>>, s)
      [] op.k = "reverse" -> Res(Reversed(s), "ok", <<>>, <<>>)
      [] op.k = "sort" -> Res(SortBag(s, <<"c1", "c2", "c3", "c4">>), "ok", <<>>, <<>>)
      [] op.k = "pop" ->
            LET p == Pos(Len(s), IF op.i = NONE THEN -1 ELSE op.i)
            IN IF p = 0 THEN Fail(s, "IndexError") ELSE Res(DropAt(s, p), s[p], <<>>, <<s[p]>>)
      [] op.k = "remove" ->
            LET p == FirstPos(s, op.x)
            IN IF p = 0 THEN Fail(s, "ValueError") ELSE Res(DropAt(s, p), "ok", <<>>, <<op.x>>)
      [] op.k = "del" ->
            LET p == Pos(Len(s), op.i)
            IN IF p = 0 THEN Fail(s, "IndexError") ELSE Res(DropAt(s, p), "ok", <<>>, <<s[p]>>)
      [] op.k = "put" ->
            LET p == Pos(Len(s), op.i)
            IN IF p = 0 THEN Fail(s, "IndexError")
               ELSE IF s[p] = op.x THEN Res(s, "ok", <<>>, <<>>)
               ELSE Res([s EXCEPT ![p] = op.x], "ok", <<op.x>>, <<s[p]>>)
      [] op.k = "dslice" ->
            IF op.s = 0 THEN Fail(s, "ValueError")
            ELSE LET pos == SlicePos(Len(s), op.i, op.j, op.s)
                 IN Res(Drop(s, pos), "ok", <<>>, Pick(s, pos))
      [] op.k = "pslice" -> IF op.s = 0 THEN Fail(s, "ValueError")
                            ELSE Assign(s, op.i, op.j, op.s, op.v)
      [] op.k = "notiterable" -> Fail(s, "TypeError")
      [] op.k = "get" ->
            LET p == Pos(Len(s), op.i)
            IN IF p = 0 THEN Fail(s, "IndexError") ELSE Res(s, s[p], <<>>, <<>>)
      [] op.k = "index" ->
            LET p == FirstPos(s, op.x)
            IN IF p = 0 THEN Fail(s, "ValueError") ELSE Res(s, ToString(p - 1), <<>>, <<>>)

Step0(params) == <<>>
Enabled(s, op) == TRUE
TypeOK(s) == TRUE

Bal(s, x) == Count(s, x)
=============================================================================
