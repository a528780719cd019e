---------------------------- MODULE StringsMC ----------------------------
(* All strings over some characters (C21): quoted they are read as the same    *)
(* strings, and nothing else, wherever they stand; the implementation is made *)
(* to write each of them everywhere a string can stand.                       *)
EXTENDS Scribe, Emit
CONSTANTS Alphabet, MaxLen, Mode
VARIABLE s

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E i \in 1..Len(Alphabet) : s' = Append(s, Alphabet[i])
Spec == Init /\ [][Next]_s

Quote(cs) == <<"\"">> \o FoldLeft(LAMBDA a, c : a \o (IF c \in {"\"", "\\"} THEN <<"\\", c>> ELSE <<c>>), <<>>, cs) \o <<"\"">>
Str(cs) == Token("s", Joined(cs))
Body(cs) == LexChars(<<"\n">> \o cs)
\* one string, whatever comes before or after
Alone == /\ Body(Quote(s)) = <<Str(s)>>
           /\ Body(<<"[", "a", "#", "\"", "\n">> \o Quote(s) \o Quote(s) \o <<",">> \o Quote(s) \o <<"]", "}">>)
                = <<Token("p", "["), Token("w", "a"), Str(s), Str(s), Str(s), Token("p", "]"), Token("p", "}")>>
\* no other string is written so
Unlike == \A i \in 1..Len(Alphabet) : Quote(Append(s, Alphabet[i])) # Quote(s)
                                     /\ Body(SubSeq(Quote(s), 1, Len(Quote(s)) - 1)) # <<Str(s)>>
\* a value of several strings can be taken apart
Listed == LET vs == <<Joined(s), "", Joined(s), ":">>
          IN [i \in 1..4 |-> Items("MFString", ValueOf("MFString", vs).v)[i].v] = vs

\* where strings can stand
S(cs) == <<[t |-> "s", v |-> cs]>>
w(x) == [t |-> "w", v |-> x]
Ws(xs) == [i \in 1..Len(xs) |-> w(xs[i])]
All == FlattenSeq([i \in 1..Len(Alphabet) |-> S(Append(s, Alphabet[i]))])
Back == FlattenSeq([i \in 1..Len(Alphabet) |-> S(<<Alphabet[i]>> \o s)])
Program == Ws(<<"EXTERNPROTO", "E", "[", "]", "[">>) \o S(s) \o S(s) \o Ws(<<"]", "PROTO", "P", "[", "field", "SFString", "a">>) \o S(s)
        \o Ws(<<"exposedField", "MFString", "b", "[">>) \o Back \o Ws(<<"]", "]", "{", "Anchor", "{", "description">>) \o S(s)
        \o Ws(<<"}", "}", "Anchor", "{", "url", "[">>) \o All \o Ws(<<"]", "description">>) \o S(s) \o Ws(<<"children", "Shape", "{", "geometry", "Text", "{", "string", "[">>)
        \o S(s) \o Ws(<<"]", "}", "}", "}", "P", "{", "a">>) \o S(s \o s) \o Ws(<<"b", "[">>) \o S(s) \o S(<<>>) \o S(s)
        \o Ws(<<"]", "}", "Script", "{", "url", "[">>) \o S(s) \o Ws(<<"]", "field", "SFString", "f">>) \o S(s) \o Ws(<<"field", "MFString", "g", "[">>) \o S(s) \o S(s) \o Ws(<<"]", "}">>)
Styles == <<"plain", "minimal1", "comments", "bare", "spaced">>
Hows == <<"parse", "make", "keywords">>
Hash == FoldLeft(LAMBDA a, c : 7 * a + (CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c), 1, s)
Op(o) == <<o, <<>>>>
Jobs == Mode # "gen" \/ EmitHist("gen", 0, <<Op([k |-> "load", s |-> 1, toks |-> Program, how |-> Hows[(Hash % 3) + 1]]),
                                          Op([k |-> "write", s |-> 1, style |-> Styles[((Hash \div 3) % 5) + 1]])>>)

Ten == <<"\"", "\\", "#", "\n", " ", ",", "[", "}", "a", "\r">>
Five == <<"\"", "\\", "n", "\n", "#">>
=============================================================================
