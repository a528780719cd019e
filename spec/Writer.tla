------------------------------ MODULE Writer ------------------------------
(* Writing scenes as VRML97 texts (C19, C21, C25).  A scene is what the       *)
(* reader of Vrml.tla makes of tokens, changed by edits since.  Writing is a   *)
(* step whose text is chosen by the implementation; the specification says    *)
(* what the text must mean, that it is the same text whenever the same scene   *)
(* is written in the same style, and that writing changes nothing except that *)
(* routed nodes get names.                                                   *)
EXTENDS Vrml

Joined(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)
\* tokens as given in an operation: strings are lists of characters
Tok(x) == IF x.t = "s" THEN Token("s", Joined(x.v)) ELSE TokenOf(x.v)
Toks(toks) == [i \in 1..Len(toks) |-> Tok(toks[i])]

---------------------------------------------------------------------------
(* Which nodes and prototypes a part of a scene consists of                  *)
RECURSIVE Below(_, _)
Below(m, S) == LET more == UNION {UNION {Refs(m.heap[n].vals[f]) : f \in DOMAIN m.heap[n].vals} : n \in S} \ S
               IN IF more = {} THEN S ELSE Below(m, S \cup more)
InScope(m, i) == Below(m, Range(m.scopes[i].children) \ {0})
DefaultsOf(m, tid) == Below(m, UNION {Refs(m.types[tid].fields[f].d) : f \in DOMAIN m.types[tid].fields})
\* nodes of the declaration of a prototype
Inside(m, tid) == DefaultsOf(m, tid) \cup (IF m.types[tid].body = 0 THEN {} ELSE InScope(m, m.types[tid].body))
TypesOf(m, S) == {m.heap[n].type : n \in S} \cap DOMAIN m.types
RECURSIVE Needed(_, _)
Needed(m, ts) == LET more == UNION {TypesOf(m, Inside(m, tid)) \cup
                                    (IF m.types[tid].body = 0 THEN {} ELSE Range(m.scopes[m.types[tid].body].protos)) : tid \in ts} \ ts
                 IN IF more = {} THEN ts ELSE Needed(m, ts \cup more)
UsersIn(m, S, n) == UNION {{<<x, f, i>> : i \in {j \in 1..Len(m.heap[x].vals[f].v) : m.heap[x].vals[f].v[j] = n}} :
                            <<x, f>> \in {<<y, g>> \in S \X UNION {DOMAIN m.heap[z].vals : z \in S} :
                                            g \in DOMAIN m.heap[y].vals /\ m.heap[y].vals[g].k = "n"}}
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
\* the scenes which can be written without loss
Writable(m) ==
    /\ m.err = ""
    /\ \A p, q \in DOMAIN m.types : m.types[p].name = m.types[q].name => p = q
    /\ \A p \in DOMAIN m.types : m.types[p].name \notin DOMAIN StdNodes \cup {"Script"}
    /\ \A i \in 1..Len(m.scopes) :
        LET s == m.scopes[i] have == InScope(m, i) named == {n \in have : m.heap[n].def # ""}
        IN /\ {s.names[d] : d \in DOMAIN s.names} = named
           /\ \A n \in named : m.heap[n].def \in DOMAIN s.names /\ s.names[m.heap[n].def] = n
           /\ \A r \in Range(s.routes) : r[1] \in have /\ r[3] \in have
           /\ \A n \in have \ named : Cardinality({j \in 1..Len(s.children) : s.children[j] = n}) + Cardinality(UsersIn(m, have, n)) = 1

---------------------------------------------------------------------------
(* Numbers of nodes, as in the lines of Dump                                 *)
Numbers1(mm) ==
    LET m == TLCEval(mm)
        a0 == [num |-> <<>>, out |-> <<>>, flat |-> FALSE]
        a1 == DumpTypes(m, a0, Sorted({Label(m, tid, FALSE) : tid \in Reachable(m)}))
    IN DumpScope(m, a1, 1, 0).num
\* the node of the scene itself (not of a prototype) with the number, 0 if none
NodeAt(m, k) == LET num == Numbers1(m) S == {n \in InScope(m, 1) : n \in DOMAIN num /\ num[n] = k}
                IN IF S = {} THEN 0 ELSE CHOOSE n \in S : TRUE

Routed(m) == UNION {{r[1], r[3]} : r \in Range(m.scopes[1].routes)}
Unnamed(m) == {n \in Routed(m) : m.heap[n].def = ""}
\* fresh names have been given to the routed nodes which had none
FreshNames(m, named) ==
    LET ids == [i \in 1..Len(named) |-> NodeAt(m, named[i].k)]
        names == [i \in 1..Len(named) |-> named[i].name]
    IN /\ Range(ids) = Unnamed(m) /\ Distinct(ids) /\ Distinct(names)
       /\ \A i \in 1..Len(names) : IsName(TokenOf(names[i])) /\ names[i] \notin DOMAIN m.scopes[1].names
RECURSIVE Named(_, _)
Named(m, named) ==
    IF named = <<>> THEN m
    ELSE LET n == NodeAt(m, named[1].k)
         IN Named([m EXCEPT !.heap[n].def = named[1].name, !.scopes[1].names = named[1].name :> n @@ m.scopes[1].names], Tail(named))

---------------------------------------------------------------------------
(* The scene which consists of some of the nodes only                        *)
Part(m, ids) ==
    LET S == Below(m, Range(ids))
        protos == Needed(m, TypesOf(m, S))
        s == m.scopes[1]
    IN [m EXCEPT !.scopes[1] = [s EXCEPT !.children = ids, !.routes = <<>>,
            !.names = [d \in {x \in DOMAIN s.names : s.names[x] \in S} |-> s.names[d]],
            !.protos = [p \in {m.types[t].name : t \in protos} |-> CHOOSE t \in protos : m.types[t].name = p]]]

---------------------------------------------------------------------------
(* Edits.  Those which do not apply change nothing, and give "none".          *)
None(m) == [ok |-> FALSE, m |-> m]
Made(m) == [ok |-> TRUE, m |-> m]
Free(m, n) == n # 0 /\ n \notin Routed(m)
FieldNames(m, n, types) == LET fs == FieldsOf(m, n)
                           IN Sorted({f \in DOMAIN fs : fs[f].t \in types /\ f \notin DOMAIN m.heap[n].is})
Pick(s, j) == s[(j % Len(s)) + 1]
NodesIn(m, n, f) == IF f \in DOMAIN m.heap[n].vals THEN m.heap[n].vals[f].v ELSE FieldsOf(m, n)[f].d.v
Put(m, n, f, v) == [m EXCEPT !.heap[n].vals = f :> v @@ m.heap[n].vals]
\* a simple value in the j-th field of that type
SetOp(m, op) ==
    LET n == NodeAt(m, op.n)
        fs == IF Free(m, n) THEN FieldNames(m, n, {op.t}) ELSE <<>>
        toks == Toks(op.items)
    IN IF fs = <<>> THEN None(m)
       ELSE Made(Put(m, n, Pick(fs, op.j), ValueOf(op.t, [i \in 1..Len(toks) |-> toks[i].v])))
\* names and routes of nodes which are not there any more are dropped
Tidy(m) == LET have == InScope(m, 1) s == m.scopes[1]
           IN [m EXCEPT !.scopes[1].names = [d \in {x \in DOMAIN s.names : s.names[x] \in have} |-> s.names[d]],
                        !.scopes[1].routes = SelectSeq(s.routes, LAMBDA r : r[1] \in have /\ r[3] \in have)]
\* the default nodes of an interface are shared by the instances, and not changed
Own(m, n, f) == f \in DOMAIN m.heap[n].vals \/ NodesIn(m, n, f) \in {<<>>, <<0>>}
WithKid(m, n, j, kid) ==
    LET fs == SelectSeq(FieldNames(m, n, NodeTypes), LAMBDA f : Own(m, n, f))
        f == Pick(fs, j)
    IN IF fs = <<>> THEN None(m)
       ELSE IF FieldsOf(m, n)[f].t = "SFNode" THEN Made(Tidy(Put(m, n, f, Node(<<kid>>))))
       ELSE Made(Put(m, n, f, Node(Append(NodesIn(m, n, f), kid))))
KidOp(m, op) ==
    LET n == NodeAt(m, op.n) o == NodeAt(m, op.o)
    IN IF ~Free(m, n) \/ o = 0 THEN None(m)
       ELSE IF m.heap[o].def = "" \/ n \in Below(m, {o}) THEN None(m)
       ELSE WithKid(m, n, op.j, o)
NewOp(m, op) ==
    LET n == NodeAt(m, op.n)
        id == Len(m.heap) + 1
        x == [type |-> op.type, def |-> op.def, vals |-> <<>>, is |-> <<>>, sf |-> <<>>, se |-> <<>>]
        m1 == [m EXCEPT !.heap = Append(m.heap, x),
                        !.scopes[1].names = IF op.def = "" THEN m.scopes[1].names ELSE op.def :> id @@ m.scopes[1].names]
    IN IF ~Free(m, n) \/ op.def \in DOMAIN m.scopes[1].names THEN None(m)
       ELSE LET r == WithKid(m1, n, op.j, id) IN IF r.ok THEN r ELSE None(m)
CutOp(m, op) ==
    LET n == NodeAt(m, op.n)
        fs == IF Free(m, n) THEN SelectSeq(FieldNames(m, n, NodeTypes), LAMBDA f : Own(m, n, f) /\ NodesIn(m, n, f) \notin {<<>>, <<0>>}) ELSE <<>>
        f == Pick(fs, op.j)
        v == NodesIn(m, n, f)
        i == (op.i % Len(v)) + 1
    IN IF fs = <<>> THEN None(m)
       ELSE Made(Tidy(Put(m, n, f, Node(IF FieldsOf(m, n)[f].t = "SFNode" THEN <<0>> ELSE SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v))))))
RouteOp(m, op) ==
    LET a == NodeAt(m, op.a) b == NodeAt(m, op.b)
    IN IF a = 0 \/ b = 0 THEN None(m)
       ELSE Made([m EXCEPT !.scopes[1].routes = Append(m.scopes[1].routes, <<a, op.fa, b, op.fb>>)])
Edit(m, op) == CASE op.k = "set" -> SetOp(m, op) [] op.k = "kid" -> KidOp(m, op) [] op.k = "new" -> NewOp(m, op)
                 [] op.k = "cut" -> CutOp(m, op) [] op.k = "route" -> RouteOp(m, op)

---------------------------------------------------------------------------
(* The state: some scenes with the tokens each was made from, and what has    *)
(* been written.                                                             *)
Blank == [m |-> Empty, toks |-> <<>>]
Step0(params) == [scenes |-> <<Blank, Blank>>, memory |-> <<>>]
Remembered(st, key) == SelectSeq(st.memory, LAMBDA e : e.key = key)
Steady(st, key, text) == LET e == Remembered(st, key) IN e = <<>> \/ e[1].text = text
Remember(st, key, text) == IF Remembered(st, key) = <<>> THEN [st EXCEPT !.memory = Append(st.memory, [key |-> key, text |-> text])] ELSE st
\* what must be observed when the scene w is written, as (part of) the scene m
Written(st, op, m, w, rest, key) ==
    LET flat == Dump(w, TRUE)
        got == Outcome(TLCEval(ReadAll(TLCEval(LexChars(op.text)))), TRUE)
    IN [ret |-> "ok", names |-> "fresh", scene |-> Dump(m, FALSE), sent |-> <<>>, kept |-> TRUE,
        means |-> IF got = [ret |-> "ok", dump |-> flat] THEN "the same" ELSE "something else",
        again |-> flat, twice |-> flat,
        steady |-> IF Steady(st, key, op.text) THEN "the same text" ELSE "another text"]
NotWritten == [ret |-> "none", names |-> "", scene |-> <<>>, sent |-> <<>>, kept |-> TRUE, means |-> "", again |-> <<>>, twice |-> <<>>, steady |-> ""]

Load(st, op) == LET m == TLCEval(ReadAll(TLCEval(Toks(op.toks))))
                IN [st |-> [st EXCEPT !.scenes[op.s] = [m |-> m, toks |-> op.toks]], obs |-> [ret |-> "ok", scene |-> Dump(m, FALSE)]]
Write(st, op) ==
    LET x == st.scenes[op.s]
    IN IF ~FreshNames(x.m, op.named) THEN [st |-> st, obs |-> [NotWritten EXCEPT !.names = "not fresh"]]
       ELSE LET m == TLCEval(Named(x.m, op.named))
                key == <<op.style, <<>>, Dump(m, FALSE), x.toks>>
            IN [st |-> Remember([st EXCEPT !.scenes[op.s].m = m], key, op.text), obs |-> Written(st, op, m, m, "", key)]
WritePart(st, op) ==
    LET x == st.scenes[op.s]
        ids == [i \in 1..Len(op.ids) |-> NodeAt(x.m, op.ids[i])]
        \* without names nodes cannot be shared
        ok == 0 \notin Range(ids) /\ ids # <<>>
              /\ \A i, j \in 1..Len(ids) : i # j => (ids[i] # ids[j] /\ ids[i] \notin Below(x.m, {ids[j]})) \/ x.m.heap[ids[i]].def # ""
    IN IF ~ok THEN [st |-> st, obs |-> NotWritten]
       ELSE LET key == <<op.style, ids, Dump(x.m, FALSE), x.toks>>
            IN [st |-> Remember(st, key, op.text), obs |-> Written(st, op, x.m, TLCEval(Part(x.m, ids)), "", key)]
\* the text somebody wrote who knows nothing but the scene
WriteAlone(st, op) ==
    LET x == st.scenes[op.s]
        key == <<op.style, <<>>, Dump(x.m, FALSE), x.toks>>
    IN IF Unnamed(x.m) # {} THEN [st |-> st, obs |-> [ret |-> "none", steady |-> ""]]
       ELSE [st |-> Remember(st, key, op.text), obs |-> [ret |-> "ok", steady |-> IF Steady(st, key, op.text) THEN "the same text" ELSE "another text"]]
EditStep(st, op) == LET r == Edit(st.scenes[op.s].m, op)
                    IN [st |-> [st EXCEPT !.scenes[op.s].m = r.m],
                        obs |-> [ret |-> IF r.ok THEN "ok" ELSE "none", scene |-> Dump(r.m, FALSE)]]
Step(st, op) == CASE op.k = "load" -> Load(st, op)
                  [] op.k = "write" -> Write(st, op)
                  [] op.k = "part" -> WritePart(st, op)
                  [] op.k = "alone" -> WriteAlone(st, op)
                  [] op.k = "noise" -> [st |-> st, obs |-> [ret |-> "ok"]]
                  [] OTHER -> EditStep(st, op)
Enabled(st, op) == op.k = "load" => Writable(ReadAll(Toks(op.toks)))
TypeOK(st) == \A i \in 1..Len(st.scenes) : ReaderOK(st.scenes[i].m) /\ Writable(st.scenes[i].m)
=============================================================================
