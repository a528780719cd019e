------------------------------- MODULE Routes -------------------------------
(* ROUTE and IS connections and event ports (vrml/route.py, vrml/event.py,  *)
(* Event in vrml/field.py).  Properties C13 and C26.                        *)
(*                                                                          *)
(* State: v, what every port holds ("-": nothing was stored), r, the routes  *)
(* in the order they were made, and m, a receiver of the changes of a port.  *)
(* It was there before the routes, and answers a change by quietly storing   *)
(* another value there, or (once) by storing a value in another port.  The    *)
(* routes still pass on the value of the change they were told of.           *)
(* A port is a field of some type or an event port.  A change starts one     *)
(* cascade for every route of its source; a cascade runs depth first, and    *)
(* reaches every port once.                                                  *)
(* Values are written as type and text: i1, f1.5, sx, l[x].                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS PortSeq,   \* names of the ports
          Kind       \* port -> "int", "float", "str", "bool", "list", "event", "handled"

Ports == {PortSeq[k] : k \in 1..Len(PortSeq)}
IsEvent(p) == Kind[p] \in {"event", "handled"}
Values == {"i0", "i1", "i2", "f0.0", "f1.0", "f1.5", "f2.0", "s", "sx", "s0", "s1", "s1.5", "l[]", "l[x]", "l[1]", "l[x,1]"}
Reject == "reject"

\* the canonical form a field stores for a value
ToInt == [i0 |-> "i0", i1 |-> "i1", i2 |-> "i2"]
         @@ ("f0.0" :> "i0" @@ "f1.0" :> "i1" @@ "f1.5" :> "i1" @@ "f2.0" :> "i2"
             @@ "s0" :> "i0" @@ "s1" :> "i1" @@ "s2" :> "i2")
ToFloat == [i0 |-> "f0.0", i1 |-> "f1.0", i2 |-> "f2.0"]
         @@ ("f0.0" :> "f0.0" @@ "f1.0" :> "f1.0" @@ "f1.5" :> "f1.5" @@ "f2.0" :> "f2.0"
             @@ "s0" :> "f0.0" @@ "s1" :> "f1.0" @@ "s2" :> "f2.0" @@ "s1.5" :> "f1.5" @@ "s0.0" :> "f0.0"
             @@ "s1.0" :> "f1.0" @@ "s2.0" :> "f2.0")
ToStr == [i0 |-> "s0", i1 |-> "s1", i2 |-> "s2"]
         @@ ("f0.0" :> "s0.0" @@ "f1.0" :> "s1.0" @@ "f1.5" :> "s1.5" @@ "f2.0" :> "s2.0"
             @@ "l[]" :> "s" @@ "l['']" :> "s" @@ "l[x]" :> "sx" @@ "l[1]" :> "s1" @@ "l[0]" :> "s0" @@ "l[x,1]" :> "sx1")
ToBool == [i0 |-> "i0", i1 |-> "i1", i2 |-> "i1"]
         @@ ("f0.0" :> "i0" @@ "f1.0" :> "i1" @@ "f1.5" :> "i1" @@ "f2.0" :> "i1"
             @@ "s" :> "i0" @@ "s0" :> "i0" @@ "l[]" :> "i0")
IsStr(v) == SubSeq(v, 1, 1) = "s"
IsList(v) == SubSeq(v, 1, 1) = "l"
At(table, v, other) == IF v \in DOMAIN table THEN table[v] ELSE other
Conv(kind, v) ==
    CASE kind = "int" -> At(ToInt, v, Reject)
      [] kind = "float" -> At(ToFloat, v, Reject)
      [] kind = "str" -> IF IsStr(v) THEN v ELSE IF IsList(v) /\ v \notin DOMAIN ToStr THEN "s" \o SubSeq(v, 3, Len(v) - 1)
                                              ELSE At(ToStr, v, Reject)
      [] kind = "bool" -> At(ToBool, v, "i1")
      [] kind = "list" -> IF v = "s" THEN "l['']" ELSE IF IsStr(v) THEN "l[" \o SubSeq(v, 2, Len(v)) \o "]" ELSE IF IsList(v) THEN v ELSE Reject
      [] kind = "event" -> v
      [] kind = "handled" -> IF v = "sx" THEN Reject ELSE v     \* the handler refuses x
Default(kind) ==
    CASE kind = "int" -> "i0" [] kind = "float" -> "f0.0" [] kind = "str" -> "s" [] kind = "bool" -> "i0"
      [] kind = "list" -> "l[]" [] OTHER -> "-"
Reads(st, p) == IF st.v[p] = "-" THEN Default(Kind[p]) ELSE st.v[p]

Nobody == [p |-> "-", q |-> "-", v |-> "-"]
Init0 == [v |-> [p \in Ports |-> "-"], r |-> <<>>, m |-> Nobody]

---------------------------------------------------------------------------
\* the ports a change of p goes to, in order
RECURSIVE Links(_, _, _)
Links(r, p, k) ==
    IF k > Len(r) THEN <<>>
    ELSE (IF r[k].s = p THEN <<r[k].d>> ELSE IF r[k].k = "IS" /\ r[k].d = p THEN <<r[k].s>> ELSE <<>>)
         \o Links(r, p, k + 1)

Note(how, p, v) == [p |-> p, t |-> how \o " " \o v \o " now " \o v]
Call(p, v) == IF Kind[p] = "handled" THEN <<[p |-> p, t |-> "handler " \o v]>> ELSE <<>>

\* x = [v, seen, notes, m] of a cascade so far
RECURSIVE Forward(_, _, _, _), ForwardAll(_, _, _, _, _), Cascades(_, _, _, _, _), Answer(_, _, _)
Forward(r, x, d, val) ==
    IF d \in x.seen THEN x
    ELSE LET c == Conv(Kind[d], val)
             x1 == [x EXCEPT !.seen = @ \cup {d}]
         IN IF c = Reject THEN [x1 EXCEPT !.notes = @ \o Call(d, val)]
            ELSE ForwardAll(r, Answer(r, [x1 EXCEPT !.v[d] = c, !.notes = @ \o Call(d, val) \o <<Note("route", d, c)>>], d),
                            Links(r, d, 1), 1, c)
ForwardAll(r, x, ds, k, val) ==
    IF k > Len(ds) THEN x
    ELSE ForwardAll(r, Forward(r, x, ds[k], val), ds, k + 1, val)

\* one cascade for each route of the changed port
Cascades(r, x, ds, k, val) ==
    IF k > Len(ds) THEN x
    ELSE Cascades(r, Forward(r, [x EXCEPT !.seen = {}], ds[k], val), ds, k + 1, val)

\* p has changed: what the receiver does about it
Answer(r, x, p) ==
    IF x.m.p # p THEN x
    ELSE LET q == x.m.q
             c == Conv(Kind[q], x.m.v)
         IN IF q = p THEN [x EXCEPT !.v[p] = c]
            ELSE LET y == Cascades(r, [x EXCEPT !.v[q] = c, !.m = Nobody, !.notes = @ \o Call(q, x.m.v) \o <<Note("set", q, c)>>],
                                   Links(r, q, 1), 1, c)
                 IN [y EXCEPT !.seen = x.seen]

RECURSIVE Of(_, _, _), Grouped(_, _)
Of(notes, p, k) == IF k > Len(notes) THEN <<>>
                   ELSE (IF notes[k].p = p THEN <<p \o ": " \o notes[k].t>> ELSE <<>>) \o Of(notes, p, k + 1)
Grouped(notes, k) == IF k > Len(PortSeq) THEN <<>> ELSE Of(notes, PortSeq[k], 1) \o Grouped(notes, k + 1)

Snap(st) == [k \in 1..Len(PortSeq) |-> PortSeq[k] \o "=" \o Reads(st, PortSeq[k])]
Res(st, ret, notes) == [st |-> st, obs |-> [ret |-> ret, notes |-> Grouped(notes, 1), snap |-> Snap(st)]]

\* after a deletion every route forwards what the source reads as by then
RECURSIVE Reverts(_, _, _, _, _)
Reverts(r, x, ds, k, p) ==
    IF k > Len(ds) THEN x
    ELSE Reverts(r, Forward(r, [x EXCEPT !.seen = {}], ds[k], IF x.v[p] = "-" THEN Default(Kind[p]) ELSE x.v[p]), ds, k + 1, p)

---------------------------------------------------------------------------
SetStep(st, op) ==
    LET c == Conv(Kind[op.p], op.v)
    IN IF c = Reject THEN Res(st, "ValueError", Call(op.p, op.v))
       ELSE LET v1 == [st.v EXCEPT ![op.p] = c]
            IN IF op.how = "quiet" THEN Res([st EXCEPT !.v = v1], "ok", Call(op.p, op.v))
               ELSE LET x == Cascades(st.r, Answer(st.r, [v |-> v1, m |-> st.m, seen |-> {}, notes |-> Call(op.p, op.v) \o <<Note("set", op.p, c)>>], op.p),
                                      Links(st.r, op.p, 1), 1, c)
                    IN Res([st EXCEPT !.v = x.v], "ok", x.notes)

DelStep(st, op) ==
    LET x == Reverts(st.r, [v |-> [st.v EXCEPT ![op.p] = "-"], m |-> st.m, seen |-> {},
                             notes |-> <<[p |-> op.p, t |-> "del"]>>], Links(st.r, op.p, 1), 1, op.p)
    IN Res([st EXCEPT !.v = x.v], "ok", x.notes)

GetStep(st, op) == IF Reads(st, op.p) = "-" THEN Res(st, "AttributeError", <<>>)
                   ELSE Res(st, Reads(st, op.p), <<>>)

Remove(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Step(st, op) ==
    CASE op.k = "set" -> SetStep(st, op)
      [] op.k = "del" -> DelStep(st, op)
      [] op.k = "get" -> GetStep(st, op)
      [] op.k = "route" -> Res([st EXCEPT !.r = Append(@, [k |-> op.kind, s |-> op.s, d |-> op.d])], "ok", <<>>)
      [] op.k = "drop" -> Res([st EXCEPT !.r = Remove(@, op.i)], "ok", <<>>)
      [] op.k = "meddle" -> Res([st EXCEPT !.m = [p |-> op.p, q |-> op.q, v |-> op.v]], "ok", <<>>)
      [] op.k = "retarget" -> Res([st EXCEPT !.r[op.i].d = op.d], "ok", <<>>)

Step0(params) == Init0
Enabled(st, op) ==
    CASE op.k = "set" -> op.how = "quiet" \/ TRUE
      [] op.k = "del" -> ~IsEvent(op.p) /\ st.v[op.p] # "-"
      [] op.k = "meddle" -> op.p = "-" \/ ((op.p = op.q => ~IsEvent(op.p)) /\ Conv(Kind[op.q], op.v) # Reject)
      [] op.k = "drop" -> op.i \in 1..Len(st.r)
      [] op.k = "retarget" -> op.i \in 1..Len(st.r) /\ st.r[op.i].k = "R"
      [] OTHER -> TRUE
TypeOK(st) == \A p \in Ports : st.v[p] = "-" \/ Conv(Kind[p], st.v[p]) = st.v[p]
=============================================================================
