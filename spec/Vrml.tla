------------------------------- MODULE Vrml -------------------------------
(* VRML97 text (ISO/IEC 14772-1:1997, clause 5 and annex A): the lexer, a    *)
(* reader which is a transition system over the tokens, and what a scene is,  *)
(* as a list of lines (Dump).                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, VrmlNodes

---------------------------------------------------------------------------
(* Characters                                                                *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Explode(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Ord == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
OrdOf(s, i) == LET c == SubSeq(s, i, i) IN IF c \in DOMAIN Ord THEN Ord[c] ELSE 0
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE
                     ELSE IF i > Len(a) THEN TRUE
                     ELSE IF SubSeq(a, i, i) = SubSeq(b, i, i) THEN LessFrom(a, b, i + 1)
                     ELSE OrdOf(a, i) < OrdOf(b, i)
Less(a, b) == LessFrom(a, b, 1)
RECURSIVE Sorted(_)
Sorted(X) == LET S == TLCEval(X) IN IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : \A z \in S : z = y \/ Less(y, z)
                  IN <<x>> \o Sorted(S \ {x})
RECURSIVE Words(_, _)
Words(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Words(Tail(s), sep)
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE s \o Times(s, n - 1)

Dig == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
HexDig == Dig @@ "a" :> 10 @@ "b" :> 11 @@ "c" :> 12 @@ "d" :> 13 @@ "e" :> 14 @@ "f" :> 15
              @@ "A" :> 10 @@ "B" :> 11 @@ "C" :> 12 @@ "D" :> 13 @@ "E" :> 14 @@ "F" :> 15
Digits == DOMAIN Dig
White == {" ", "\t", "\n", "\r", "\f", "U+000B", ","}
Punct == {"{", "}", "[", "]"}

---------------------------------------------------------------------------
(* Numbers.  The canonical form of a decimal number is its sign, its digits   *)
(* without zeros in front or at the end, and the power of ten when not zero.  *)
NoNum == [ok |-> FALSE, whole |-> FALSE, c |-> ""]

NumStep(a, c) ==
    IF a.ph = "bad" THEN a
    ELSE IF c \in Digits
    THEN IF a.ph = "exp" THEN [a EXCEPT !.e = 10 * a.e + Dig[c], !.ed = a.ed + 1]
         ELSE IF a.ph = "xsign" THEN [a EXCEPT !.ph = "exp", !.e = Dig[c], !.ed = 1]
         ELSE [a EXCEPT !.ph = IF a.ph = "start" THEN "int" ELSE a.ph,
                        !.n = a.n + 1, !.d = IF a.d = "" /\ c = "0" THEN "" ELSE a.d \o c,
                        !.p = IF a.ph = "frac" THEN a.p + 1 ELSE a.p]
    ELSE IF c \in {"+", "-"} /\ a.ph = "start" /\ ~a.signed
    THEN [a EXCEPT !.signed = TRUE, !.neg = (c = "-")]
    ELSE IF c = "." /\ a.ph \in {"start", "int"} THEN [a EXCEPT !.ph = "frac", !.dot = TRUE]
    ELSE IF c \in {"e", "E"} /\ a.ph \in {"int", "frac"} /\ a.n > 0 THEN [a EXCEPT !.ph = "xsign", !.x = TRUE]
    ELSE IF c \in {"+", "-"} /\ a.ph = "xsign" /\ ~a.xsigned
    THEN [a EXCEPT !.xsigned = TRUE, !.xneg = (c = "-")]
    ELSE [a EXCEPT !.ph = "bad"]
NumStart == [ph |-> "start", signed |-> FALSE, neg |-> FALSE, n |-> 0, d |-> "", p |-> 0, dot |-> FALSE,
             x |-> FALSE, xsigned |-> FALSE, xneg |-> FALSE, e |-> 0, ed |-> 0]
RECURSIVE Zeros(_)
Zeros(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "0" THEN 1 + Zeros(SubSeq(s, 1, Len(s) - 1)) ELSE 0
Scaled(neg, d, exp) ==
    LET z == Zeros(d) x == exp + z
    IN IF d = "" THEN "0"
       ELSE (IF neg THEN "-" ELSE "") \o SubSeq(d, 1, Len(d) - z)
            \o (IF x = 0 THEN "" ELSE "e" \o ToString(x))
HexOf(cs) ==
    LET neg == cs[1] = "-"
        b == IF cs[1] \in {"+", "-"} THEN 1 ELSE 0
        ok == Len(cs) > b + 2 /\ cs[b + 1] = "0" /\ cs[b + 2] \in {"x", "X"}
              /\ \A i \in b + 3..Len(cs) : cs[i] \in DOMAIN HexDig
        v == FoldLeft(LAMBDA a, c : 16 * a + HexDig[c], 0, SubSeq(cs, b + 3, Len(cs)))
    IN IF ok THEN [ok |-> TRUE, whole |-> TRUE, c |-> Scaled(neg, IF v = 0 THEN "" ELSE ToString(v), 0)] ELSE NoNum
\* what the characters stand for; a whole number is written without point, exponent, or in hexadecimal
NumberOf(cs) ==
    LET a == FoldLeft(NumStep, NumStart, cs)
    IN IF cs = <<>> THEN NoNum
       ELSE IF a.ph \in {"int", "frac", "exp"} /\ a.n > 0
       THEN [ok |-> TRUE, whole |-> ~a.dot /\ ~a.x,
             c |-> Scaled(a.neg, a.d, (IF a.xneg THEN 0 - a.e ELSE a.e) - a.p)]
       ELSE HexOf(cs)
IsHex(cs) == HexOf(cs).ok

---------------------------------------------------------------------------
(* The lexer: one transition for each character.  Tokens are                  *)
(*   p { } [ ] .    n numbers    s strings    w names and keywords    bad     *)
Token(k, v) == [t |-> k, v |-> v]
NumberStarts == Digits \cup {"+", "-", "."}
NumberStart(c) == c \in NumberStarts
WordEnds == White \cup Punct \cup {"#", "\"", "'", "\\"}
Flush(l) ==
    IF l.cur = <<>> THEN l
    ELSE LET w == FoldLeft(LAMBDA a, c : a \o c, "", l.cur)
             tok == IF l.cur = <<".">> THEN Token("p", ".")
                    ELSE IF NumberStart(l.cur[1])
                    THEN LET n == NumberOf(l.cur)
                         IN IF n.ok THEN [t |-> "n", v |-> n.c, whole |-> n.whole, hex |-> IsHex(l.cur)] ELSE Token("bad", w)
                    ELSE Token("w", w)
         IN [l EXCEPT !.cur = <<>>, !.toks = Append(l.toks, tok)]
GapChar(l, c) ==
    IF c \in White THEN [l EXCEPT !.m = "gap"]
    ELSE IF c = "#" THEN [l EXCEPT !.m = "comment"]
    ELSE IF c = "\"" THEN [l EXCEPT !.m = "string", !.str = <<>>]
    ELSE IF c \in Punct THEN [l EXCEPT !.m = "gap", !.toks = Append(l.toks, Token("p", c))]
    ELSE IF c \in {"'", "\\"} THEN [l EXCEPT !.m = "gap", !.toks = Append(l.toks, Token("bad", c))]
    ELSE [l EXCEPT !.m = "word", !.cur = <<c>>]
WordChar(l, c) ==
    IF c \in WordEnds THEN GapChar(Flush(l), c)
    ELSE IF c = "."
    THEN IF NumberStart(l.cur[1]) THEN [l EXCEPT !.cur = Append(l.cur, c)]
         ELSE [Flush(l) EXCEPT !.cur = <<c>>]
    ELSE IF l.cur = <<".">> /\ c \notin Digits THEN [Flush(l) EXCEPT !.cur = <<c>>]
    ELSE [l EXCEPT !.cur = Append(l.cur, c)]
LexStep(l, c) ==
    CASE l.m = "header" -> IF c \in {"\n", "\r"} THEN [l EXCEPT !.m = "gap"] ELSE l
      [] l.m = "gap" -> GapChar(l, c)
      [] l.m = "comment" -> IF c \in {"\n", "\r"} THEN [l EXCEPT !.m = "gap"] ELSE l
      [] l.m = "word" -> WordChar(l, c)
      [] l.m = "string" ->
            IF c = "\"" THEN [l EXCEPT !.m = "gap", !.toks = Append(l.toks,
                                Token("s", FoldLeft(LAMBDA a, x : a \o x, "", l.str)))]
            ELSE IF c = "\\" THEN [l EXCEPT !.m = "escape"]
            ELSE [l EXCEPT !.str = Append(l.str, c)]
      [] l.m = "escape" ->
            [l EXCEPT !.m = "string",
                      !.str = IF c \in {"\"", "\\"} THEN Append(l.str, c) ELSE l.str \o <<"\\", c>>]
LexStart == [m |-> "header", cur |-> <<>>, str |-> <<>>, toks |-> <<>>]
LexEnd(l) == LET e == Flush(l)
             IN IF e.m \in {"string", "escape"} THEN Append(e.toks, Token("bad", "")) ELSE e.toks
LexChars(cs) == LexEnd(FoldLeft(LexStep, LexStart, cs))
Lex(text) == LexChars(Explode(text))
\* a token given by itself (a string starts with a quote)
TokenOf(s) == IF SubSeq(s, 1, 1) = "\"" THEN Token("s", SubSeq(s, 2, Len(s)))
              ELSE LexChars(<<"\n">> \o Explode(s))[1]

---------------------------------------------------------------------------
(* Field types and values.  A simple value is a text, a node value a list of  *)
(* nodes (0 is NULL).                                                         *)
SFTypes == {"SFBool", "SFInt32", "SFFloat", "SFTime", "SFString", "SFVec2f", "SFVec3f", "SFColor", "SFRotation", "SFImage", "SFNode"}
MFTypes == {"MFInt32", "MFFloat", "MFTime", "MFString", "MFVec2f", "MFVec3f", "MFColor", "MFRotation", "MFNode"}
Types == SFTypes \cup MFTypes
NodeTypes == {"SFNode", "MFNode"}
StringTypes == {"SFString", "MFString"}
WholeTypes == {"SFInt32", "MFInt32", "SFImage"}
\* how many numbers make up one value of the type
Numbers(t) == CASE t \in {"SFVec2f", "MFVec2f"} -> 2
                [] t \in {"SFVec3f", "MFVec3f", "SFColor", "MFColor"} -> 3
                [] t \in {"SFRotation", "MFRotation"} -> 4
                [] t \in {"SFImage"} -> 3
                [] OTHER -> 1
Simple(v) == [k |-> "s", v |-> v]
Node(ids) == [k |-> "n", v |-> ids]
\* the value for the items (canonical numbers, words or strings)
ValueOf(t, items) ==
    Simple(IF t \in StringTypes
           THEN Words([i \in 1..Len(items) |-> ToString(Len(items[i])) \o ":" \o items[i]], " ")
           ELSE Words(items, " "))
CanonItems(t, words) == IF t \in StringTypes \cup {"SFBool"} THEN words
                        ELSE [i \in 1..Len(words) |-> NumberOf(Explode(words[i])).c]
ValueFor(t, words) == IF t = "SFNode" THEN Node(<<0>>) ELSE IF t = "MFNode" THEN Node(<<>>)
                      ELSE ValueOf(t, CanonItems(t, words))
TypeDefault(t) == ValueFor(t, CASE t = "SFBool" -> <<"FALSE">> [] t = "SFString" -> <<"">>
                                [] t \in {"SFInt32", "SFFloat", "SFTime"} -> <<"0">>
                                [] t = "SFVec2f" -> <<"0", "0">> [] t \in {"SFVec3f", "SFColor"} -> <<"0", "0", "0">>
                                [] t = "SFRotation" -> <<"0", "0", "1", "0">> [] OTHER -> <<>>)

---------------------------------------------------------------------------
(* The interface of a node type: its fields and its events by name.           *)
FieldsIn(rows) == {r \in Range(rows) : r.x \in {"field", "exposedField"}}
StdFields == ([n \in DOMAIN StdNodes |->
    [f \in {r.n : r \in FieldsIn(StdNodes[n])} |->
        LET r == CHOOSE q \in FieldsIn(StdNodes[n]) : q.n = f IN [x |-> r.x, t |-> r.t, d |-> ValueFor(r.t, r.d)]]])
StdEvents == ([n \in DOMAIN StdNodes |->
    LET ev == Range(StdNodes[n]) \ FieldsIn(StdNodes[n])
    IN [f \in {r.n : r \in ev} |-> LET r == CHOOSE q \in ev : q.n = f IN [x |-> r.x, t |-> r.t]]])
ScriptFields == [url |-> [x |-> "exposedField", t |-> "MFString", d |-> ValueFor("MFString", <<>>)],
                 directOutput |-> [x |-> "field", t |-> "SFBool", d |-> ValueFor("SFBool", <<"FALSE">>)],
                 mustEvaluate |-> [x |-> "field", t |-> "SFBool", d |-> ValueFor("SFBool", <<"FALSE">>)]]

---------------------------------------------------------------------------
(* What has been read: the nodes, the prototypes and the name scopes.         *)
(*   node   type (the name of a standard type, or u1, u2, ... for prototypes), *)
(*          def, vals (field -> value), is (field -> interface names), and    *)
(*          the fields and events a Script declares                           *)
(*   type   name, scope it was declared in, fields, events, body, url         *)
(*   scope  parent, owner, children, routes, names (DEF), protos              *)
NoScope == [parent |-> 0, owner |-> "", children |-> <<>>, routes |-> <<>>, names |-> <<>>, protos |-> <<>>]
\* err: "" or the error a text must give; "undefined" when the standard leaves open what the text means
\* (a prototype or field declared twice in its scope, a node inside itself, a name
\* given in the interface of a prototype, an IS of what is not declared so), what is wrong with it (a keyword for a field), or
\* the parser is known to accept more (the addresses of an EXTERNPROTO without brackets,
\* images of another size)
Empty == [err |-> "", lax |-> FALSE, heap |-> <<>>, types |-> <<>>, scopes |-> <<NoScope>>, cur |-> 1,
          stack |-> <<[k |-> "scene", scope |-> 1]>>]

IsUser(m, tid) == tid \in DOMAIN m.types
FieldsOf(m, n) == LET x == m.heap[n]
                  IN IF x.type = "Script" THEN ScriptFields @@ x.sf
                     ELSE IF IsUser(m, x.type) THEN m.types[x.type].fields ELSE StdFields[x.type]
EventsOf(m, n) == LET x == m.heap[n]
                  IN IF x.type = "Script" THEN x.se
                     ELSE IF IsUser(m, x.type) THEN m.types[x.type].events ELSE StdEvents[x.type]
\* the type a name denotes in a scope, "" if none
RECURSIVE TypeNamed(_, _, _)
TypeNamed(m, sid, name) ==
    IF sid = 0 THEN (IF name \in DOMAIN StdNodes \cup {"Script"} THEN name ELSE "")
    ELSE IF name \in DOMAIN m.scopes[sid].protos THEN m.scopes[sid].protos[name]
    ELSE TypeNamed(m, m.scopes[sid].parent, name)
\* the innermost prototype whose body is being read, "" if none
Owner(m) == m.scopes[m.cur].owner

Err(m, e) == [m EXCEPT !.err = e]
Top(m) == m.stack[Len(m.stack)]
Pop(m) == [m EXCEPT !.stack = SubSeq(m.stack, 1, Len(m.stack) - 1)]
Push(m, f) == [m EXCEPT !.stack = Append(m.stack, f)]
Turn(m, f) == [m EXCEPT !.stack[Len(m.stack)] = f]
IsP(k, v) == k.t = "p" /\ k.v = v
IsW(k, v) == k.t = "w" /\ k.v = v
Keywords == {"DEF", "EXTERNPROTO", "FALSE", "IS", "NULL", "PROTO", "ROUTE", "TO", "TRUE", "USE",
             "eventIn", "eventOut", "exposedField", "field"}
IsName(k) == k.t = "w" /\ k.v \notin Keywords
\* what is wrong where a name should stand
NoName(k) == IF k.t \in {"w", "n"} /\ ~IsName(k) THEN "undefined" ELSE "error"

NewNode(m, type, def) ==
    LET id == Len(m.heap) + 1
        m1 == [m EXCEPT !.heap = Append(m.heap, [type |-> type, def |-> def, vals |-> <<>>, is |-> <<>>, sf |-> <<>>, se |-> <<>>])]
    IN IF def = "" THEN m1 ELSE [m1 EXCEPT !.scopes[m.cur].names = def :> id @@ m.scopes[m.cur].names]

\* a value is finished: the frame below takes it
Give(m, v) ==
    LET f == Top(m)
    IN CASE f.k = "attr" -> [Pop(m) EXCEPT !.heap[f.n].vals = f.f :> v @@ m.heap[f.n].vals]
         [] f.k = "decl" -> IF f.n > 0
                            THEN [Pop(m) EXCEPT !.heap[f.n].sf = f.f :> [x |-> f.kind, t |-> f.t, d |-> v] @@ m.heap[f.n].sf,
                                                !.heap[f.n].vals = f.f :> v @@ m.heap[f.n].vals]
                            ELSE [Pop(m) EXCEPT !.types[f.p].fields = f.f :> [x |-> f.kind, t |-> f.t, d |-> v] @@ m.types[f.p].fields]
         [] f.k = "proto" -> [Pop(m) EXCEPT !.types[f.p].url = v.v, !.scopes[m.cur].protos = m.types[f.p].name :> f.p @@ m.scopes[m.cur].protos]
\* a node (or NULL) is finished: it is a child of the scene or (part of) a value
GiveNode(m, id) ==
    LET f == Top(m)
    IN IF f.k = "scene" THEN [m EXCEPT !.scopes[f.scope].children = Append(m.scopes[f.scope].children, id)]
       ELSE IF f.open THEN Turn(m, [f EXCEPT !.items = Append(f.items, id)])
       ELSE Give(Pop(m), Node(<<id>>))

Value(t) == [k |-> "val", t |-> t, items |-> <<>>, open |-> FALSE]
ReadNode(m, k) ==
    CASE k.t = "w" /\ k.v \in {"DEF", "USE"} /\ (\E i \in 1..Len(m.stack) : m.stack[i].k = "decl" /\ m.stack[i].n = 0) -> Err(m, "undefined")
      [] IsW(k, "DEF") -> Push(m, [k |-> "def"])
      [] IsW(k, "USE") -> Push(m, [k |-> "use"])
      [] IsName(k) -> Push(m, [k |-> "open", gi |-> k.v, def |-> ""])
      [] OTHER -> Err(m, NoName(k))
\* declarations and routes stand between nodes and between attributes
IsStatement(k) == k.t = "w" /\ k.v \in {"PROTO", "EXTERNPROTO", "ROUTE"}
ReadStatement(m, k) ==
    IF k.v = "ROUTE" THEN Push(m, [k |-> "route", got |-> <<>>])
    ELSE Push(m, [k |-> "proto", ph |-> "name", ext |-> k.v = "EXTERNPROTO", p |-> ""])
Kinds == {"field", "exposedField", "eventIn", "eventOut"}

ReadScene(m, k) ==
    LET f == Top(m)
    IN CASE IsStatement(k) -> ReadStatement(m, k)
         [] IsP(k, "}") ->
                IF Len(m.stack) = 1 THEN Err(m, "error")
                ELSE LET p == m.scopes[f.scope].owner up == m.scopes[f.scope].parent
                     IN [Pop(m) EXCEPT !.cur = up, !.scopes[up].protos = m.types[p].name :> p @@ m.scopes[up].protos]
         [] OTHER -> ReadNode(m, k)

ReadOpen(m, k) ==
    LET f == Top(m) tid == TypeNamed(m, m.cur, f.gi)
    IN IF ~IsP(k, "{") THEN Err(m, "error")
       ELSE IF tid = "" THEN Err(m, "NameError")
       ELSE LET m1 == NewNode(m, tid, f.def)
            IN Turn(m1, [k |-> "node", n |-> Len(m1.heap), script |-> tid = "Script"])

\* fields may be addressed by the names of their events too
Changed(s) == IF Len(s) > 8 /\ SubSeq(s, Len(s) - 7, Len(s)) = "_changed" THEN SubSeq(s, 1, Len(s) - 8) ELSE ""
SetName(s) == IF Len(s) > 4 /\ SubSeq(s, 1, 4) = "set_" THEN SubSeq(s, 5, Len(s)) ELSE ""
ReadBody(m, k) ==
    LET f == Top(m) fs == FieldsOf(m, f.n)
        ports == DOMAIN EventsOf(m, f.n) \cup {x \in {Changed(k.v), SetName(k.v)} : x \in DOMAIN fs}
    IN CASE IsStatement(k) -> ReadStatement(m, k)
         [] IsP(k, "}") -> GiveNode(Pop(m), f.n)
         [] f.script /\ k.t = "w" /\ k.v \in Kinds ->
                Push(m, [k |-> "decl", kind |-> k.v, ph |-> "type", t |-> "", f |-> "", n |-> f.n, p |-> "", ext |-> FALSE])
         [] IsName(k) ->
                IF k.v \in DOMAIN fs THEN Push(m, [k |-> "attr", ph |-> "value", n |-> f.n, f |-> k.v, t |-> fs[k.v].t])
                ELSE IF k.v \in DOMAIN EventsOf(m, f.n) \/ ports \ DOMAIN EventsOf(m, f.n) # {}
                THEN Push(m, [k |-> "attr", ph |-> "event", n |-> f.n, f |-> k.v, t |-> ""])
                ELSE Err(m, "AttributeError")
         [] OTHER -> Err(m, NoName(k))

\* the items so far make up a whole value
Full(t, items) ==
    CASE t \in NodeTypes \cup StringTypes \cup {"SFBool"} -> Len(items) = 1
      [] t = "SFImage" -> Len(items) >= 3
      [] OTHER -> Len(items) = Numbers(t)
ImageSize(items) == LET w == [i \in 1..2 |-> FoldLeft(LAMBDA a, c : 10 * a + Dig[c], 0, Explode(items[i]))] IN w[1] * w[2]
Whole(items) == \A i \in 1..Len(items) : items[i].whole
ReadSimple(m, k) ==
    LET f == Top(m)
        right == CASE f.t \in StringTypes -> k.t = "s"
                   [] f.t = "SFBool" -> k.t = "w" /\ k.v \in {"TRUE", "FALSE"}
                   [] f.t \in WholeTypes -> k.t = "n" /\ k.whole
                   [] OTHER -> k.t = "n" /\ ~k.hex
        items == Append(f.items, k.v)
        full == IF f.t = "SFImage" /\ Len(items) >= 3 THEN Len(items) = 3 + f.more ELSE Full(f.t, items)
    IN IF ~right THEN Err(m, IF f.t = "SFImage" /\ k.t # "n" THEN "undefined" ELSE "error")
       ELSE IF ~f.open /\ full THEN [Give(Pop(m), ValueOf(f.t, items)) EXCEPT !.lax = Top(Pop(m)).k = "proto"]
       ELSE IF f.t = "SFImage" /\ Len(items) = 2
       THEN Turn(m, [f EXCEPT !.items = items] @@ [more |-> ImageSize(items)])
       ELSE Turn(m, [f EXCEPT !.items = items])
ReadValue(m, k) ==
    LET f == Top(m)
    IN CASE IsP(k, "[") -> IF f.t \in MFTypes /\ ~f.open /\ f.items = <<>> THEN Turn(m, [f EXCEPT !.open = TRUE]) ELSE Err(m, IF f.t = "SFImage" THEN "undefined" ELSE "error")
         [] IsP(k, "]") -> IF f.open /\ Len(f.items) % Numbers(f.t) = 0
                           THEN Give(Pop(m), IF f.t = "MFNode" THEN Node(f.items) ELSE ValueOf(f.t, f.items))
                           ELSE Err(m, "error")
         [] f.t \in NodeTypes -> IF IsW(k, "NULL") THEN (IF f.t = "SFNode" THEN GiveNode(m, 0) ELSE Err(m, "error"))
                                 ELSE ReadNode(m, k)
         [] OTHER -> ReadSimple(m, k)

\* the type of what an IS connects, and of what the innermost prototype declares
PortType(m, n, f) == LET fs == FieldsOf(m, n) es == EventsOf(m, n)
                     IN IF f \in DOMAIN fs THEN fs[f].t ELSE IF f \in DOMAIN es THEN es[f].t
                        ELSE fs[CHOOSE x \in DOMAIN fs : Changed(f) = x \/ SetName(f) = x].t
Declares(m, t, name) == LET ty == m.types[Owner(m)]
                        IN \/ name \in DOMAIN ty.fields /\ ty.fields[name].t = t
                           \/ name \in DOMAIN ty.events /\ ty.events[name].t = t

ReadAttr(m, k) ==
    LET f == Top(m)
    IN CASE f.ph = "is" ->
                IF IsName(k) /\ Owner(m) # "" /\ ~Declares(m, PortType(m, f.n, f.f), k.v) THEN Err(m, "undefined")
                ELSE IF IsName(k) /\ Owner(m) # ""
                THEN [Pop(m) EXCEPT !.heap[f.n].is = f.f :> Append(IF f.f \in DOMAIN m.heap[f.n].is THEN m.heap[f.n].is[f.f] ELSE <<>>, k.v) @@ m.heap[f.n].is]
                ELSE Err(m, NoName(k))
         [] IsW(k, "IS") -> Turn(m, [f EXCEPT !.ph = "is"])
         [] f.ph = "event" -> Err(m, "error")
         [] OTHER -> ReadValue(Push(m, Value(f.t)), k)

\* <kind> type name [IS name | value]
ReadDecl(m, k) ==
    LET f == Top(m) script == f.n > 0 event == f.kind \in {"eventIn", "eventOut"}
    IN CASE f.ph = "type" -> IF k.t = "w" /\ k.v \in Types THEN Turn(m, [f EXCEPT !.ph = "name", !.t = k.v]) ELSE Err(m, "error")
         [] f.ph = "name" ->
                IF ~IsName(k) THEN Err(m, NoName(k))
                ELSE IF IF script THEN k.v \in DOMAIN FieldsOf(m, f.n) \cup DOMAIN EventsOf(m, f.n)
                        ELSE k.v \in DOMAIN m.types[f.p].fields \cup DOMAIN m.types[f.p].events
                THEN Err(m, "undefined")
                ELSE IF event /\ script
                THEN [Turn(m, [f EXCEPT !.ph = "maybe", !.f = k.v]) EXCEPT !.heap[f.n].se = k.v :> [x |-> f.kind, t |-> f.t] @@ m.heap[f.n].se]
                ELSE IF event
                THEN [Pop(m) EXCEPT !.types[f.p].events = k.v :> [x |-> f.kind, t |-> f.t] @@ m.types[f.p].events]
                ELSE IF f.ext
                THEN [Pop(m) EXCEPT !.types[f.p].fields = k.v :> [x |-> f.kind, t |-> f.t, d |-> TypeDefault(f.t)] @@ m.types[f.p].fields]
                ELSE Turn(m, [f EXCEPT !.ph = "value", !.f = k.v])
         [] f.ph = "is" -> IF IsName(k) /\ Owner(m) # "" /\ ~Declares(m, f.t, k.v) THEN Err(m, "undefined")
                           ELSE IF IsName(k) /\ Owner(m) # ""
                           THEN LET was == m.heap[f.n].is
                                IN [Pop(m) EXCEPT !.heap[f.n].is = f.f :> <<k.v>> @@ was]
                           ELSE Err(m, NoName(k))
         [] OTHER -> IF script /\ IsW(k, "IS")
                     THEN [Turn(m, [f EXCEPT !.ph = "is"]) EXCEPT
                            !.heap[f.n].sf = IF event THEN @ ELSE f.f :> [x |-> f.kind, t |-> f.t, d |-> TypeDefault(f.t)] @@ @]
                     ELSE ReadValue(Push(m, Value(f.t)), k)
\* whether the token ends the declaration of an event of a Script, which may or may not have an IS
EndsEvent(m, k) == Top(m).k = "decl" /\ Top(m).ph = "maybe" /\ ~IsW(k, "IS")

ReadProto(m, k) ==
    LET f == Top(m)
    IN CASE f.ph = "name" ->
                IF ~IsName(k) THEN Err(m, NoName(k))
                ELSE IF k.v \in DOMAIN m.scopes[m.cur].protos \cup {"Script"} THEN Err(m, "undefined")
                ELSE LET p == "u" \o ToString(Cardinality(DOMAIN m.types) + 1)
                     IN [Turn(m, [f EXCEPT !.ph = "[", !.p = p]) EXCEPT
                            !.types = p :> [name |-> k.v, scope |-> m.cur, fields |-> <<>>, events |-> <<>>, body |-> 0, ext |-> f.ext, url |-> ""] @@ m.types]
         [] f.ph = "[" -> IF IsP(k, "[") THEN Turn(m, [f EXCEPT !.ph = "decls"]) ELSE Err(m, "error")
         [] f.ph = "decls" ->
                IF IsP(k, "]") THEN Turn(m, [f EXCEPT !.ph = "body"])
                ELSE IF k.t = "w" /\ k.v \in Kinds
                THEN Push(m, [k |-> "decl", kind |-> k.v, ph |-> "type", t |-> "", f |-> "", n |-> 0, p |-> f.p, ext |-> f.ext])
                ELSE Err(m, "error")
         [] f.ph = "body" ->
                IF f.ext THEN (IF k.t = "s" \/ IsP(k, "[") THEN ReadValue(Push(m, Value("MFString")), k) ELSE Err(m, "undefined"))
                ELSE IF ~IsP(k, "{") THEN Err(m, "error")
                ELSE LET sid == Len(m.scopes) + 1
                     IN [Turn(m, [k |-> "scene", scope |-> sid]) EXCEPT
                            !.scopes = Append(m.scopes, [NoScope EXCEPT !.parent = m.cur, !.owner = f.p]),
                            !.types[f.p].body = sid, !.cur = sid]

RouteForm == <<"name", ".", "name", "TO", "name", ".", "name">>
ReadRoute(m, k) ==
    LET f == Top(m) at == Len(f.got) + 1 form == RouteForm[at]
        right == CASE form = "name" -> IsName(k) [] form = "." -> IsP(k, ".") [] OTHER -> IsW(k, "TO")
        got == Append(f.got, k.v)
        names == m.scopes[m.cur].names
    IN IF ~right THEN Err(m, IF form = "name" THEN NoName(k) ELSE "error")
       ELSE IF at < 7 THEN Turn(m, [f EXCEPT !.got = got])
       ELSE IF got[1] \notin DOMAIN names \/ got[5] \notin DOMAIN names THEN Err(m, "NameError")
       ELSE [Pop(m) EXCEPT !.scopes[m.cur].routes = Append(m.scopes[m.cur].routes, <<names[got[1]], got[3], names[got[5]], got[7]>>)]

\* the node is being read
Within(m, id) == \E i \in 1..Len(m.stack) : m.stack[i].k = "node" /\ m.stack[i].n = id
ReadOne(m, k) ==
    CASE k.t = "bad" -> Err(m, "error")
      [] Top(m).k = "scene" -> ReadScene(m, k)
      [] Top(m).k = "def" -> IF IsName(k) THEN Turn(m, [k |-> "deftype", def |-> k.v]) ELSE Err(m, NoName(k))
      [] Top(m).k = "deftype" -> IF IsName(k) THEN Turn(m, [k |-> "open", gi |-> k.v, def |-> Top(m).def]) ELSE Err(m, NoName(k))
      [] Top(m).k = "use" -> IF ~IsName(k) THEN Err(m, NoName(k))
                             ELSE IF k.v \in DOMAIN m.scopes[m.cur].names /\ Within(m, m.scopes[m.cur].names[k.v]) THEN Err(m, "undefined")
                             ELSE IF k.v \in DOMAIN m.scopes[m.cur].names THEN GiveNode(Pop(m), m.scopes[m.cur].names[k.v])
                             ELSE Err(m, "NameError")
      [] Top(m).k = "open" -> ReadOpen(m, k)
      [] Top(m).k = "node" -> ReadBody(m, k)
      [] Top(m).k = "attr" -> ReadAttr(m, k)
      [] Top(m).k = "val" -> ReadValue(m, k)
      [] Top(m).k = "decl" -> ReadDecl(m, k)
      [] Top(m).k = "proto" -> ReadProto(m, k)
      [] Top(m).k = "route" -> ReadRoute(m, k)
Before(m, k) == IF EndsEvent(m, k) THEN Pop(m) ELSE m
\* the transition for a token
InAddresses(m) == Len(m.stack) > 1 /\ Top(m).k = "val" /\ m.stack[Len(m.stack) - 1].k = "proto"
Read(m, k) == IF m.err # "" THEN m
              ELSE IF (m.lax /\ (k.t = "s" \/ IsP(k, "]"))) \/ (InAddresses(m) /\ ~(k.t = "s" \/ IsP(k, "]"))) THEN Err(m, "undefined")
              ELSE ReadOne([Before(m, k) EXCEPT !.lax = FALSE], k)
\* the end of the text
Ended(m) == IF m.err = "" /\ Len(m.stack) # 1
            THEN Err(m, IF InAddresses(m) \/ Top(m).k = "use" \/ (Top(m).k = "route" /\ Len(Top(m).got) = 6) \/ (Top(m).k = "proto" /\ Top(m).ext /\ Top(m).ph = "body") THEN "undefined" ELSE "error") ELSE m
ReadAll(toks) == Ended(FoldLeft(Read, Empty, toks))

---------------------------------------------------------------------------
(* What there is, as lines.  Nodes are numbered in the order they appear.     *)
(* flat: the prototypes are told apart by their names alone, wherever they     *)
(* are declared.                                                              *)
RECURSIVE Label(_, _, _)
Label(m, tid, flat) ==
    IF ~IsUser(m, tid) THEN tid
    ELSE LET ty == m.types[tid] owner == m.scopes[ty.scope].owner
         IN IF flat \/ owner = "" THEN ty.name ELSE Label(m, owner, flat) \o "/" \o ty.name
Line(a, ind, s) == [a EXCEPT !.out = Append(a.out, Times(" ", ind) \o s)]
IsText(m, n, f) == IF f \in DOMAIN m.heap[n].is THEN f \o " IS " \o Words(Sorted(Range(m.heap[n].is[f])), " ") ELSE ""

RECURSIVE DumpNode(_, _, _, _), DumpList(_, _, _, _, _), DumpFields(_, _, _, _, _)
DumpNode(m, a, id, ind) ==
    IF id = 0 THEN Line(a, ind, "NULL")
    ELSE IF id \in DOMAIN a.num THEN Line(a, ind, "#" \o ToString(a.num[id]))
    ELSE LET x == m.heap[id]
             k == Cardinality(DOMAIN a.num) + 1
             a1 == Line([a EXCEPT !.num = id :> k @@ a.num], ind,
                        "#" \o ToString(k) \o " " \o Label(m, x.type, a.flat) \o (IF x.def = "" THEN "" ELSE " DEF " \o x.def))
             fs == FieldsOf(m, id)
             shown == {f \in DOMAIN x.vals : f \in DOMAIN x.sf \/ x.vals[f] # fs[f].d} \cup DOMAIN x.is \cup DOMAIN x.sf \cup DOMAIN x.se
         IN DumpFields(m, a1, id, Sorted(shown), ind + 1)
DumpFields(m, a, id, names, ind) ==
    IF names = <<>> THEN a
    ELSE LET x == m.heap[id] f == names[1]
             decl == IF f \in DOMAIN x.sf THEN x.sf[f].x \o " " \o x.sf[f].t \o " "
                     ELSE IF f \in DOMAIN x.se THEN x.se[f].x \o " " \o x.se[f].t \o " " ELSE ""
             rest == Tail(names)
         IN IF f \in DOMAIN x.is THEN DumpFields(m, Line(a, ind, decl \o IsText(m, id, f)), id, rest, ind)
            ELSE IF f \notin DOMAIN x.vals THEN DumpFields(m, Line(a, ind, decl \o f), id, rest, ind)
            ELSE IF x.vals[f].k = "s" THEN DumpFields(m, Line(a, ind, decl \o f \o " = " \o x.vals[f].v), id, rest, ind)
            ELSE DumpFields(m, DumpList(m, Line(a, ind, decl \o f \o " ="), x.vals[f].v, 1, ind + 1), id, rest, ind)
DumpList(m, a, ids, from, ind) ==
    IF from > Len(ids) THEN a ELSE DumpList(m, DumpNode(m, a, ids[from], ind), ids, from + 1, ind)

\* the prototypes which are declared somewhere and not replaced
RECURSIVE ReachFrom(_, _)
ReachFrom(m, sid) == LET own == Range(m.scopes[sid].protos)
                     IN own \cup UNION {ReachFrom(m, m.types[tid].body) : tid \in {p \in own : m.types[p].body # 0}}
Reachable(m) == ReachFrom(m, 1)
RECURSIVE DumpRoutes(_, _, _, _), DumpNames(_, _, _, _), DumpTypeFields(_, _, _, _), DumpTypes(_, _, _)
NodeNo(a, id) == IF id \in DOMAIN a.num THEN "#" \o ToString(a.num[id]) ELSE "elsewhere"
DumpRoutes(a, routes, from, ind) ==
    IF from > Len(routes) THEN a
    ELSE LET r == routes[from]
         IN DumpRoutes(Line(a, ind, "ROUTE " \o NodeNo(a, r[1]) \o "." \o r[2] \o " TO " \o NodeNo(a, r[3]) \o "." \o r[4]), routes, from + 1, ind)
DumpNames(a, tab, names, ind) ==
    IF names = <<>> THEN a
    ELSE DumpNames(Line(a, ind, "name " \o names[1] \o " " \o NodeNo(a, tab[names[1]])), tab, Tail(names), ind)
DumpScope(m, a, sid, ind) ==
    LET s == m.scopes[sid]
        a1 == DumpList(m, a, s.children, 1, ind)
        a2 == DumpRoutes(a1, s.routes, 1, ind)
    IN DumpNames(a2, s.names, Sorted(DOMAIN s.names), ind)
DumpTypeFields(m, a, ty, names) ==
    IF names = <<>> THEN a
    ELSE LET f == names[1] rest == Tail(names)
         IN IF f \in DOMAIN ty.events THEN DumpTypeFields(m, Line(a, 1, ty.events[f].x \o " " \o ty.events[f].t \o " " \o f), ty, rest)
            ELSE LET r == ty.fields[f] head == r.x \o " " \o r.t \o " " \o f
                 IN IF ty.ext THEN DumpTypeFields(m, Line(a, 1, head), ty, rest)
                    ELSE IF r.d.k = "s" THEN DumpTypeFields(m, Line(a, 1, head \o " = " \o r.d.v), ty, rest)
                    ELSE DumpTypeFields(m, DumpList(m, Line(a, 1, head \o " ="), r.d.v, 1, 2), ty, rest)
DumpType(m, a, tid) ==
    LET ty == m.types[tid]
        a1 == Line(a, 0, (IF ty.ext THEN "EXTERNPROTO " ELSE "PROTO ") \o Label(m, tid, a.flat) \o (IF ty.ext THEN " " \o ty.url ELSE ""))
        a2 == DumpTypeFields(m, a1, ty, Sorted(DOMAIN ty.fields \cup DOMAIN ty.events))
    IN IF ty.body = 0 THEN a2 ELSE DumpScope(m, a2, ty.body, 1)
DumpTypes(m, a, labels) ==
    IF labels = <<>> THEN a
    ELSE DumpTypes(m, DumpType(m, a, CHOOSE tid \in Reachable(m) : Label(m, tid, a.flat) = labels[1]), Tail(labels))
Dump(mm, flat) ==
    LET m == TLCEval(mm) IN
    LET a0 == [num |-> <<>>, out |-> <<>>, flat |-> flat]
        a1 == DumpTypes(m, a0, Sorted({Label(m, tid, flat) : tid \in Reachable(m)}))
    IN DumpScope(m, a1, 1, 0).out
Outcome(m, flat) == IF m.err # "" THEN [ret |-> m.err, dump |-> <<>>] ELSE [ret |-> "ok", dump |-> Dump(m, flat)]

---------------------------------------------------------------------------
(* What always holds of what has been read                                    *)
Ids(m) == 1..Len(m.heap)
Refs(v) == IF v.k = "n" THEN Range(v.v) \ {0} ELSE {}
ReaderOK(m) ==
    /\ m.cur \in 1..Len(m.scopes)
    /\ \A n \in Ids(m) :
        /\ m.heap[n].type \in DOMAIN StdNodes \cup {"Script"} \cup DOMAIN m.types
        /\ \A f \in DOMAIN m.heap[n].vals :
            /\ f \in DOMAIN FieldsOf(m, n)
            /\ Refs(m.heap[n].vals[f]) \subseteq Ids(m)
            /\ (m.heap[n].vals[f].k = "n") <=> (FieldsOf(m, n)[f].t \in NodeTypes)
    /\ \A i \in 1..Len(m.scopes) :
        LET s == m.scopes[i]
        IN /\ \A d \in DOMAIN s.names : m.heap[s.names[d]].def = d
           /\ Range(s.children) \subseteq Ids(m)
           /\ \A p \in DOMAIN s.protos : m.types[s.protos[p]].name = p /\ m.types[s.protos[p]].scope = i
           /\ \A r \in Range(s.routes) : r[1] \in Ids(m) /\ r[3] \in Ids(m)
=============================================================================
