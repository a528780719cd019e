------------------------------ MODULE Scribe ------------------------------
(* A reference writer: the tokens which stand for a scene.  Whatever can be    *)
(* written at all must come back when they are read (see WriterMC), with the  *)
(* prototypes declared where they were, or all of them in front of the scene  *)
(* (which is how the implementation writes them).                            *)
EXTENDS Writer

Tp(v) == Token("p", v)
Tw(v) == Token("w", v)
Tn(v) == [t |-> "n", v |-> v, whole |-> TRUE, hex |-> FALSE]
\* the strings of a text <length>:<characters> ...
RECURSIVE StringsIn(_)
StringsIn(s) ==
    IF s = "" THEN <<>>
    ELSE LET colon == CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = ":" /\ \A j \in 1..i - 1 : SubSeq(s, j, j) \in Digits
             n == FoldLeft(LAMBDA a, c : 10 * a + Dig[c], 0, Explode(SubSeq(s, 1, colon - 1)))
         IN <<SubSeq(s, colon + 1, colon + n)>> \o StringsIn(SubSeq(s, colon + n + 2, Len(s)))
RECURSIVE Split(_, _)
Split(s, i) == IF i > Len(s) THEN (IF s = "" THEN <<>> ELSE <<s>>)
               ELSE IF SubSeq(s, i, i) = " " THEN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), 1)
               ELSE Split(s, i + 1)
Items(t, v) == IF t \in StringTypes THEN LET s == StringsIn(v) IN [i \in 1..Len(s) |-> Token("s", s[i])]
               ELSE LET s == Split(v, 1) IN [i \in 1..Len(s) |-> IF t = "SFBool" THEN Tw(s[i]) ELSE Tn(s[i])]

RECURSIVE PutNode(_, _, _), PutNodes(_, _, _), PutFields(_, _, _, _), PutValue(_, _, _, _)
PutValue(m, a, t, v) ==
    IF v.k = "s" THEN [a EXCEPT !.out = a.out \o (IF t \in MFTypes THEN <<Tp("[")>> \o Items(t, v.v) \o <<Tp("]")>> ELSE Items(t, v.v))]
    ELSE IF t = "SFNode" THEN PutNode(m, a, v.v[1])
    ELSE LET b == PutNodes(m, [a EXCEPT !.out = Append(a.out, Tp("["))], v.v) IN [b EXCEPT !.out = Append(b.out, Tp("]"))]
PutNodes(m, a, ids) == IF ids = <<>> THEN a ELSE PutNodes(m, PutNode(m, a, ids[1]), Tail(ids))
PutNode(m, a, id) ==
    IF id = 0 THEN [a EXCEPT !.out = Append(a.out, Tw("NULL"))]
    ELSE LET x == m.heap[id]
         IN IF id \in a.done THEN [a EXCEPT !.out = a.out \o <<Tw("USE"), Tw(x.def)>>]
            ELSE LET name == IF IsUser(m, x.type) THEN m.types[x.type].name ELSE x.type
                     head == (IF x.def = "" THEN <<>> ELSE <<Tw("DEF"), Tw(x.def)>>) \o <<Tw(name), Tp("{")>>
                     fs == Sorted(DOMAIN x.vals \cup DOMAIN x.is \cup DOMAIN x.sf \cup DOMAIN x.se)
                     b == PutFields(m, [a EXCEPT !.out = a.out \o head, !.done = a.done \cup {id}], id, fs)
                 IN [b EXCEPT !.out = Append(b.out, Tp("}"))]
RECURSIVE IsToks(_, _)
IsToks(head, names) == IF names = <<>> THEN <<>> ELSE head \o <<Tw("IS"), Tw(names[1])>> \o IsToks(head, Tail(names))
PutFields(m, a, id, fs) ==
    IF fs = <<>> THEN a
    ELSE LET x == m.heap[id] f == fs[1]
             decl == IF f \in DOMAIN x.sf THEN <<Tw(x.sf[f].x), Tw(x.sf[f].t)>> ELSE IF f \in DOMAIN x.se THEN <<Tw(x.se[f].x), Tw(x.se[f].t)>> ELSE <<>>
             is == IF f \in DOMAIN x.is THEN x.is[f] ELSE <<>>
             b == IF is # <<>>
                  THEN [a EXCEPT !.out = a.out \o decl \o <<Tw(f), Tw("IS"), Tw(is[1])>> \o IsToks(<<Tw(f)>>, Tail(is))]
                  ELSE LET c == [a EXCEPT !.out = a.out \o decl \o <<Tw(f)>>]
                       IN IF f \in DOMAIN x.vals THEN PutValue(m, c, FieldsOf(m, id)[f].t, x.vals[f]) ELSE c
         IN PutFields(m, b, id, Tail(fs))

RECURSIVE PutDecls(_, _, _, _), PutProtos(_, _, _, _), PutRoutes(_, _, _)
PutDecls(m, a, ty, names) ==
    IF names = <<>> THEN a
    ELSE LET f == names[1]
             r == IF f \in DOMAIN ty.fields THEN ty.fields[f] ELSE ty.events[f]
             b == [a EXCEPT !.out = a.out \o <<Tw(r.x), Tw(r.t), Tw(f)>>]
         IN PutDecls(m, IF f \in DOMAIN ty.fields /\ ~ty.ext THEN PutValue(m, b, r.t, r.d) ELSE b, ty, Tail(names))
PutRoutes(m, a, rs) ==
    IF rs = <<>> THEN a
    ELSE LET r == rs[1]
         IN PutRoutes(m, [a EXCEPT !.out = a.out \o <<Tw("ROUTE"), Tw(m.heap[r[1]].def), Tp("."), Tw(r[2]), Tw("TO"), Tw(m.heap[r[3]].def), Tp("."), Tw(r[4])>>],
                      Tail(rs))
\* in the order they were declared
TypeNo(tid) == FoldLeft(LAMBDA a, c : 10 * a + Dig[c], 0, Tail(Explode(tid)))
RECURSIVE InOrder(_)
InOrder(T) == IF T = {} THEN <<>> ELSE LET t == CHOOSE x \in T : \A y \in T : TypeNo(x) <= TypeNo(y) IN <<t>> \o InOrder(T \ {t})
PutScope(m, a, i, hoist) ==
    LET s == m.scopes[i]
        b == IF hoist THEN a ELSE PutProtos(m, a, InOrder(Range(s.protos)), FALSE)
    IN PutRoutes(m, PutNodes(m, b, s.children), s.routes)
PutProtos(m, a, ts, hoist) ==
    IF ts = <<>> THEN a
    ELSE LET ty == m.types[ts[1]]
             before == IF hoist /\ ty.body # 0 THEN PutProtos(m, a, InOrder(Range(m.scopes[ty.body].protos)), TRUE) ELSE a
             head == [before EXCEPT !.out = before.out \o <<Tw(IF ty.ext THEN "EXTERNPROTO" ELSE "PROTO"), Tw(ty.name), Tp("[")>>]
             decls == PutDecls(m, head, ty, Sorted(DOMAIN ty.fields \cup DOMAIN ty.events))
             open == [decls EXCEPT !.out = Append(decls.out, Tp("]"))]
             body == IF ty.ext THEN [open EXCEPT !.out = open.out \o <<Tp("[")>> \o Items("MFString", ty.url) \o <<Tp("]")>>]
                     ELSE LET c == PutScope(m, [open EXCEPT !.out = Append(open.out, Tp("{"))], ty.body, hoist)
                          IN [c EXCEPT !.out = Append(c.out, Tp("}"))]
         IN PutProtos(m, body, Tail(ts), hoist)
Scribed(m, hoist) ==
    LET a == [out |-> <<>>, done |-> {}]
        b == IF hoist THEN PutProtos(m, a, InOrder(Range(m.scopes[1].protos)), TRUE) ELSE a
    IN PutScope(m, b, 1, hoist).out
Faithful(m) == /\ Dump(ReadAll(TLCEval(Scribed(m, FALSE))), FALSE) = Dump(m, FALSE)
               /\ Dump(ReadAll(TLCEval(Scribed(m, TRUE))), TRUE) = Dump(m, TRUE)
=============================================================================
