----------------------------- MODULE ReaderMC -----------------------------
(* The reader as a transition system: every sequence of pieces of text, up    *)
(* to a bound.  Each transition gives a text to be read by the real parser:    *)
(* what has been read, closed, or what is wrong with it.                       *)
EXTENDS Reader, Emit
CONSTANTS Mode, SimDepth, Pieces, MaxPieces, Open
VARIABLES m, words, last
vars == <<m, words, last>>

---------------------------------------------------------------------------
(* What must follow to complete what was begun (NoClose when it depends)      *)
NoClose == <<"?">>
ValueWords(t, have) ==
    CASE t = "SFBool" -> <<"TRUE">> [] t \in StringTypes -> <<"\"s">>
      [] t = "SFNode" -> <<"NULL">> [] t = "MFNode" -> <<"[", "]">>
      [] t \in MFTypes -> <<"[", "]">>
      [] OTHER -> [i \in 1..(Numbers(t) - have) |-> "1"]
After(f) ==
    CASE f.k = "scene" -> IF f.scope = 1 THEN <<>> ELSE <<"}">>
      [] f.k = "node" -> <<"}">>
      [] f.k = "attr" -> IF f.ph = "value" THEN ValueWords(f.t, 0) ELSE IF f.ph = "event" THEN <<"IS", "r">> ELSE <<"r">>
      [] f.k = "val" -> IF f.open THEN [i \in 1..((Numbers(f.t) - (Len(f.items) % Numbers(f.t))) % Numbers(f.t)) |-> "1"] \o <<"]">>
                        ELSE IF f.t = "SFImage" THEN NoClose
                        ELSE ValueWords(f.t, Len(f.items))
      [] f.k = "decl" -> CASE f.ph = "maybe" -> <<>>
                           [] f.ph = "value" -> ValueWords(f.t, 0)
                           [] f.ph = "is" -> <<"r">>
                           [] OTHER -> NoClose
      [] f.k = "proto" -> (CASE f.ph = "[" -> <<"[", "]">> [] f.ph = "decls" -> <<"]">> [] f.ph = "body" -> <<>> [] OTHER -> NoClose)
                          \o (IF f.ph = "name" THEN <<>> ELSE IF f.ext THEN <<"[", "]">> ELSE <<"{", "}">>)
      [] f.k = "route" -> SubSeq(<<"A", ".", "x", "TO", "A", ".", "x">>, Len(f.got) + 1, 7)
      [] f.k = "def" -> <<"Z", "Group", "{", "}">>
      [] f.k = "deftype" -> <<"Group", "{", "}">>
      [] f.k = "open" -> <<"{", "}">>
      [] f.k = "use" -> <<"A">>
\* a frame which goes with the one above it
Goes(mm, i) == LET f == mm.stack[i] IN i < Len(mm.stack) /\
    ((f.k \in {"attr", "decl", "proto"}) \/ (f.k = "val" /\ ~f.open))
RECURSIVE CloseFrom(_, _)
CloseFrom(mm, i) == IF i = 0 THEN <<>> ELSE (IF Goes(mm, i) THEN <<>> ELSE After(mm.stack[i])) \o CloseFrom(mm, i - 1)
Closing(mm) == CloseFrom(mm, Len(mm.stack))
\* after the token k, which is wrong: as if it had been right
Mended(mm, k) ==
    CASE Top(mm).k = "open" -> <<"}">> \o Closing(GiveNode(Pop(mm), 0))
      [] Top(mm).k = "use" -> Closing(GiveNode(Pop(mm), 0))
      [] Top(mm).k = "route" -> Closing(Pop(mm))
      [] Top(mm).k = "node" -> <<"1">> \o Closing(mm)
      [] OTHER -> <<>>

RECURSIVE ReadPiece(_, _, _)
\* <<state, words read, words which complete it>>
ReadPiece(mm, piece, i) ==
    IF i > Len(piece) THEN <<mm, piece, Closing(mm)>>
    ELSE LET k == TokenOf(piece[i]) m1 == Read(mm, k)
         IN IF m1.err # "" THEN <<m1, SubSeq(piece, 1, i), Mended(Before(mm, k), k)>>
            ELSE ReadPiece(m1, piece, i + 1)

Text(toks) == [k |-> "read", toks |-> toks]
Emitted(toks) == IF Mode = "gen" /\ ~("?" \in Range(toks))
                 THEN LET obs == TLCEval(Do1(Text(toks)))
                      IN IF obs.ret = "undefined" THEN TRUE ELSE EmitHist("gen", 0, <<<<Text(toks), obs>>>>)
                 ELSE TRUE

Init == m = Empty /\ words = <<>> /\ last = [op |-> [k |-> "-"], obs |-> <<>>]
Next == \E p \in 1..Len(Pieces) :
    /\ m.err = ""
    /\ LET r == TLCEval(ReadPiece(m, Pieces[p], 1))
       IN /\ m' = r[1]
          /\ words' = words \o r[2]
          /\ last' = [op |-> [k |-> "piece", p |-> p], obs |-> <<>>]
          /\ IF r[1].err = "undefined" THEN TRUE ELSE Emitted(words' \o r[3])
          /\ IF Open /\ r[1].err \in {"", "error"} THEN Emitted(words') ELSE TRUE
Spec == Init /\ [][Next]_vars
View == m
Bound == TLCGet("level") <= MaxPieces

---------------------------------------------------------------------------
TypeInv == ReaderOK(m)
\* what has been read is never changed, only added to; errors stay
Grows == [][m'.err = "" =>
    /\ Len(m'.heap) >= Len(m.heap)
    /\ \A n \in Ids(m) : m'.heap[n].type = m.heap[n].type /\ m'.heap[n].def = m.heap[n].def
                         /\ DOMAIN m.heap[n].is \subseteq DOMAIN m'.heap[n].is
    /\ \A i \in 1..Len(m.scopes) : IsPrefix(m.scopes[i].children, m'.scopes[i].children)
                                   /\ DOMAIN m.scopes[i].names \subseteq DOMAIN m'.scopes[i].names
    /\ DOMAIN m.types \subseteq DOMAIN m'.types]_vars
\* DEF names and routes stay within the scope they are in
NodesOf(mm, i) == LET RECURSIVE Under(_)
                      Under(S) == LET more == UNION {UNION {Refs(mm.heap[n].vals[f]) : f \in DOMAIN mm.heap[n].vals} : n \in S} \ S
                                  IN IF more = {} THEN S ELSE Under(S \cup more)
                  IN Under(Range(mm.scopes[i].children) \ {0})
Scoped == \A i, j \in 1..Len(m.scopes) : i # j => NodesOf(m, i) \cap NodesOf(m, j) = {}
\* the layout does not matter: spaces, commas, comments, or nothing where nothing is needed
Gaps == <<" ", "\n", ",", "\t,\r\n", " # } \" [ USE\n", "#\n">>
Tight(a, b) == LET wordy(w) == w \notin Punct /\ SubSeq(w, 1, 1) # "\"" IN ~(wordy(a) /\ wordy(b))
\* a point goes with the names next to it
Dotted(a, b) == LET named(w) == TokenOf(w).t = "w" IN (a = "." /\ named(b)) \/ (named(a) /\ b = ".")
RECURSIVE Escaped(_)
Escaped(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1)
    IN (IF c \in {"\"", "\\"} THEN "\\" ELSE "") \o c \o Escaped(SubSeq(s, 2, Len(s)))
WordText(w) == IF SubSeq(w, 1, 1) = "\"" THEN "\"" \o Escaped(SubSeq(w, 2, Len(w))) \o "\"" ELSE w
RECURSIVE Rendered(_, _, _, _)
Rendered(ws, gap, tight, i) ==
    IF i > Len(ws) THEN ""
    ELSE WordText(ws[i]) \o (IF i = Len(ws) THEN ""
            ELSE IF Dotted(ws[i], ws[i+1]) \/ (tight /\ Tight(ws[i], ws[i+1])) THEN "" ELSE gap)
         \o Rendered(ws, gap, tight, i + 1)
LayoutFree == \A g \in 1..Len(Gaps), tight \in BOOLEAN :
                 Lex("#VRML V2.0 utf8\n" \o Rendered(words, Gaps[g], tight, 1)) = Tokens(words)

---------------------------------------------------------------------------
(* Pieces of text                                                             *)
NodePieces == <<<<"DEF", "A", "Group", "{", "children", "[">>, <<"DEF", "A", "Box", "{">>, <<"DEF", "B", "Shape", "{", "geometry">>,
    <<"Switch", "{", "choice">>, <<"USE", "A">>, <<"USE", "B">>, <<"NULL">>, <<"]">>, <<"}">>,
    <<"ROUTE", "A", ".", "set_children", "TO", "B", ".", "geometry">>, <<"whichChoice", "2">>, <<"Foo", "{">>, <<"size", "1", "2", "3">>>>
ProtoPieces == <<<<"PROTO", "P", "[", "]", "{">>, <<"PROTO", "Q", "[", "field", "SFFloat", "r", "2.5", "exposedField", "SFNode", "n", "NULL", "]", "{">>,
    <<"EXTERNPROTO", "E", "[", "field", "SFFloat", "r", "eventIn", "SFBool", "b", "]", "[", "\"a", "\"b", "]">>,
    <<"P", "{">>, <<"Q", "{">>, <<"r", "3">>, <<"n", "P", "{">>, <<"E", "{">>, <<"DEF", "A", "Sphere", "{">>, <<"radius", "IS", "r">>, <<"USE", "A">>, <<"}">>,
    <<"ROUTE", "A", ".", "x", "TO", "A", ".", "y">>>>
ScriptPieces == <<<<"PROTO", "P", "[", "field", "SFInt32", "i", "0", "eventIn", "SFBool", "b", "eventOut", "SFTime", "t", "exposedField", "MFNode", "k", "[", "Group", "{", "}", "]", "]", "{">>,
    <<"DEF", "S", "Script", "{">>, <<"DEF", "A", "Group", "{">>, <<"field", "SFInt32", "n", "3">>, <<"field", "SFInt32", "n", "IS", "i">>, <<"eventIn", "SFBool", "e">>,
    <<"eventOut", "SFTime", "o", "IS", "t">>, <<"IS", "b">>, <<"url", "\"a\"\\b">>, <<"field", "MFNode", "k", "[">>, <<"USE", "A">>, <<"USE", "S">>, <<"]">>, <<"}">>,
    <<"directOutput", "TRUE">>, <<"ROUTE", "S", ".", "o", "TO", "S", ".", "e">>, <<"P", "{">>, <<"url", "IS", "u">>, <<"t", "IS", "t">>, <<"k", "NULL">>>>
ValuePieces == <<<<"Transform", "{">>, <<"translation", "1", "-2.50", ".5e+3">>, <<"children">>, <<"scale">>, <<"[">>, <<"]">>, <<"}">>,
    <<"1">>, <<"0x1F">>, <<"007">>, <<"+2.">>, <<"TRUE">>, <<"\"# \\{\"">>, <<"NULL">>, <<"Text", "{", "string">>, <<"Switch", "{", "whichChoice">>, <<"PixelTexture", "{", "image">>,
    <<"Cone", "{", "bottom">>, <<"Coordinate", "{", "point">>, <<"TextureCoordinate", "{", "point">>, <<"rotation">>, <<"IndexedLineSet", "{", "coordIndex">>, <<"Shape", "{", "appearance">>>>
TokenPieces == <<<<"DEF">>, <<"USE">>, <<"A">>, <<"Group">>, <<"{">>, <<"}">>, <<"[">>, <<"]">>, <<"children">>, <<"ROUTE">>, <<".">>, <<"TO">>, <<"PROTO">>, <<"field">>,
    <<"SFInt32">>, <<"1">>, <<"IS">>, <<"Script">>, <<"eventIn">>, <<"EXTERNPROTO">>, <<"\"s">>, <<"NULL">>, <<"TRUE">>>>
=============================================================================
