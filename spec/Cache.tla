------------------------------- MODULE Cache -------------------------------
(* The cache of data about nodes (vrml/cache.py).  Property C10.            *)
(* State: alive nodes; which fields have stored values; the entries, a      *)
(* function from "cache node key" to the data ("" when cleared), the        *)
(* (node, field) pairs and the nodes it depends on.                         *)
EXTENDS PyList, TLC

CONSTANTS CacheSeq, NodeSeq, KeySeq, FieldSeq

NodeSet == RangeOf(NodeSeq)
Fld == RangeOf(FieldSeq)

Slots == [c : RangeOf(CacheSeq), n : NodeSet, q : RangeOf(KeySeq)]
None == [val |-> "-", deps |-> {}, objs |-> {}]
Init0 == [alive |-> NodeSet, has |-> {}, ent |-> [s \in Slots |-> None]]

Slot(op) == [c |-> op.c, n |-> op.n, q |-> op.q]
Exists(st, s) == st.ent[s].val # "-"

RECURSIVE Show(_, _)
SlotSeq == LET nn == Len(NodeSeq) nk == Len(KeySeq) IN
    [i \in 1..(Len(CacheSeq) * nn * nk) |->
        [c |-> CacheSeq[((i-1) \div (nn*nk)) + 1],
         n |-> NodeSeq[(((i-1) \div nk) % nn) + 1],
         q |-> KeySeq[((i-1) % nk) + 1]]]
Show(st, i) ==
    IF i > Len(SlotSeq) THEN <<>>
    ELSE LET s == SlotSeq[i]
         IN (IF Exists(st, s)
             THEN <<s.c \o " " \o s.n \o " " \o s.q \o "=" \o st.ent[s].val>> ELSE <<>>) \o Show(st, i + 1)

Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, entries |-> Show(st, 1), live |-> Keep(NodeSeq, st.alive)]]

\* a change of field f of node n clears what depends on it
Change(st, n, f) ==
    [st EXCEPT !.ent = [s \in Slots |->
        IF <<n, f>> \in st.ent[s].deps THEN [st.ent[s] EXCEPT !.val = "empty"] ELSE st.ent[s]]]
Has(st, n, f) == [st EXCEPT !.has = @ \cup {<<n, f>>}]

\* node n is collected
Death(st, n) ==
    [alive |-> st.alive \ {n},
     has |-> {h \in st.has : h[1] # n},
     ent |-> [s \in Slots |->
                IF s.n = n \/ n \in st.ent[s].objs THEN None
                ELSE [st.ent[s] EXCEPT !.deps = {d \in @ : d[1] # n}]]]

OnEntry(st, op, e) ==
    IF ~Exists(st, Slot(op)) THEN Res(st, "no entry")
    ELSE Res([st EXCEPT !.ent[Slot(op)] = e], "ok")

Step(st, op) ==
    CASE op.k = "hold" -> Res([st EXCEPT !.ent[Slot(op)] = [None EXCEPT !.val = op.v]], "ok")
      [] op.k = "set" -> OnEntry(st, op, [st.ent[Slot(op)] EXCEPT !.val = op.v])
      [] op.k = "depend" -> OnEntry(st, op, [st.ent[Slot(op)] EXCEPT !.deps = @ \cup {<<op.m, op.f>>}])
      [] op.k = "dependobj" -> OnEntry(st, op, [st.ent[Slot(op)] EXCEPT !.objs = @ \cup {op.m}])
      [] op.k = "clear" -> OnEntry(st, op, [st.ent[Slot(op)] EXCEPT !.val = "empty"])
      [] op.k = "drop" -> OnEntry(st, op, None)
      [] op.k = "change" -> Res(Change(Has(st, op.m, op.f), op.m, op.f), "ok")
      [] op.k = "bad" -> Res(st, "ValueError")
      [] op.k = "quiet" -> Res(Has(st, op.m, op.f), "ok")
      [] op.k = "read" -> Res(Has(st, op.m, op.f), "ok")
      [] op.k = "del" ->
            IF <<op.m, op.f>> \notin st.has THEN Res(st, "AttributeError")
            ELSE Res(Change([st EXCEPT !.has = @ \ {<<op.m, op.f>>}], op.m, op.f), "ok")
      [] op.k = "routed" -> Res(Change(Has(st, op.m, op.f), op.m, op.f), "ok")
      [] op.k = "die" -> Res(Death(st, op.m), "ok")
      [] op.k = "born" -> Res([st EXCEPT !.alive = @ \cup {op.m}], "ok")

Args(op) == (IF "n" \in DOMAIN op THEN {op.n} ELSE {})
            \cup (IF "m" \in DOMAIN op /\ op.k # "born" THEN {op.m} ELSE {})
Step0(params) == Init0
Enabled(st, op) == Args(op) \subseteq st.alive
\* C10: nothing is held for a dead node, and nothing depends on one
TypeOK(st) == \A s \in Slots : Exists(st, s) =>
                /\ s.n \in st.alive /\ st.ent[s].objs \subseteq st.alive
                /\ \A d \in st.ent[s].deps : d[1] \in st.alive
=============================================================================
