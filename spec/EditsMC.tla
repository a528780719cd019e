----------------------------- MODULE EditsMC -----------------------------
(* Scenes changed between being written (C25, C19): all short histories of     *)
(* edits and writes of two scenes.                                            *)
EXTENDS Scribe, Emit
CONSTANTS Mode, MaxOps, Programs
VARIABLES scenes, written, hist
vars == <<scenes, written, hist>>

OpTok(x) == IF SubSeq(x, 1, 1) = "\"" THEN [t |-> "s", v |-> Explode(SubSeq(x, 2, Len(x)))] ELSE [t |-> "w", v |-> x]
OpToks(xs) == [i \in 1..Len(xs) |-> OpTok(xs[i])]
LoadOp(s, p, how) == [k |-> "load", s |-> s, toks |-> OpToks(Programs[p]), how |-> how]

\* names as the implementation might choose them
RECURSIVE Fresh(_, _)
Fresh(m, n) == LET name == "PROTO_" \o ToString(n) IN IF name \in DOMAIN m.scopes[1].names THEN Fresh(m, n + 1) ELSE n
RECURSIVE Naming(_, _)
Naming(m, n) == IF Unnamed(m) = {} THEN m
                ELSE LET k == Fresh(m, n) name == "PROTO_" \o ToString(k) x == CHOOSE y \in Unnamed(m) : TRUE
                     IN Naming([m EXCEPT !.heap[x].def = name, !.scopes[1].names = name :> x @@ m.scopes[1].names], k + 1)

Edits == {[k |-> "set", s |-> 1, n |-> n, j |-> 0, t |-> t, items |-> OpToks(v)] :
            <<n, t, v>> \in {<<1, "SFVec3f", <<"7", "8", "9">>>>, <<2, "SFVec3f", <<"0", "0", "0">>>>, <<1, "MFString", <<"\"a\"", "\"\\">>>>, <<2, "SFInt32", <<"3">>>>, <<3, "MFString", <<>>>>}}
         \cup {[k |-> "kid", s |-> 1, n |-> x[1], j |-> x[2], o |-> x[3]] : x \in {<<1, 0, 2>>, <<2, 1, 3>>, <<3, 0, 4>>, <<4, 0, 2>>}}
         \cup {[k |-> "new", s |-> 1, n |-> x[1], j |-> x[2], type |-> x[3], def |-> x[4]] : x \in {<<1, 0, "Group", "">>, <<1, 0, "Box", "Y">>, <<2, 1, "Group", "Y">>, <<3, 0, "Shape", "">>}}
         \cup {[k |-> "cut", s |-> 1, n |-> n, j |-> 0, i |-> i] : n \in 1..3, i \in {0, 1}}
         \cup {[k |-> "route", s |-> 1, a |-> x[1], b |-> x[2], fa |-> "x", fb |-> "set_y"] : x \in {<<1, 1>>, <<2, 3>>, <<1, 4>>}}
Writes == {[k |-> "write", s |-> s, style |-> t] : s \in {1, 2}, t \in {"plain", "minimal1"}}
          \cup {[k |-> "part", s |-> 1, ids |-> ids, style |-> "plain"] : ids \in {<<2>>, <<1, 3>>}}

Init == \E p, q \in 1..Len(Programs), how \in {"parse", "make"} :
    /\ p = q \/ q = (p % Len(Programs)) + 1
    /\ (p = q) <=> how = "parse"
    /\ scenes = <<ReadAll(Toks(LoadOp(1, p, how).toks)), ReadAll(Toks(LoadOp(2, q, "parse").toks))>>
    /\ written = 0
    /\ hist = IF Mode = "mc" THEN <<>> ELSE <<<<LoadOp(1, p, how), <<>>>>, <<LoadOp(2, q, "parse"), <<>>>>>>
\* in the end both are written
AtLast == [s \in {1, 2} |-> <<[k |-> "write", s |-> s, style |-> "plain"], <<>>>>]
Did(op) == hist' = Extend(Mode, hist, op, <<>>) /\ EmitHist(Mode, 0, hist' \o AtLast)
Change == \E op \in Edits :
    LET r == Edit(scenes[op.s], op)
    IN r.ok /\ scenes' = [scenes EXCEPT ![op.s] = r.m] /\ UNCHANGED written /\ Did(op)
Written1 == \E op \in Writes :
    /\ scenes' = IF op.k = "write" THEN [scenes EXCEPT ![op.s] = Naming(@, 1)] ELSE scenes
    /\ written' = IF written < 2 THEN written + 1 ELSE 2
    /\ Did(op)
Next == Change \/ Written1
Spec == Init /\ [][Next]_vars
View == <<scenes, written>>
Bound == TLCGet("level") <= MaxOps

TypeInv == \A s \in {1, 2} : ReaderOK(scenes[s]) /\ Writable(scenes[s])
\* once the routed nodes are named, the reference writer gives the scene back
RoundTrip == \A s \in {1, 2} : Faithful(TLCEval(Naming(scenes[s], 1)))
\* writing changes nothing but names
Writing == [][written' # written => \A s \in {1, 2} :
    LET bare(m) == [n \in 1..Len(m.heap) |-> [m.heap[n] EXCEPT !.def = ""]]
    IN bare(scenes'[s]) = bare(scenes[s]) /\ scenes'[s].scopes[1].children = scenes[s].scopes[1].children
       /\ scenes'[s].scopes[1].routes = scenes[s].scopes[1].routes]_vars
\* the scenes are independent of each other
Alone == [][scenes'[1] = scenes[1] \/ scenes'[2] = scenes[2]]_vars

SomePrograms == <<
    <<"DEF", "A", "Transform", "{", "children", "[", "DEF", "B", "Shape", "{", "geometry", "Box", "{", "size", "1", "2", "3", "}", "}", "USE", "B", "Text", "{", "string", "[", "\"x", "]", "}", "]", "}">>,
    <<"PROTO", "P", "[", "field", "SFNode", "n", "Box", "{", "}", "exposedField", "SFVec3f", "v", "1", "2", "3", "exposedField", "MFNode", "k", "[", "]", "]", "{", "DEF", "T", "Transform", "{", "translation", "IS", "v", "}", "}",
      "DEF", "I", "P", "{", "v", "4", "5", "6", "}", "DEF", "G", "Group", "{", "children", "[", "USE", "I", "P", "{", "k", "[", "DEF", "X", "P", "{", "}", "]", "}", "]", "}">>,
    <<"DEF", "S", "Script", "{", "url", "[", "\"a", "]", "field", "SFNode", "k", "DEF", "G", "Group", "{", "}", "eventIn", "SFBool", "e", "field", "SFInt32", "i", "5", "}",
      "DEF", "W", "Switch", "{", "choice", "[", "USE", "G", "Group", "{", "}", "]", "}", "ROUTE", "S", ".", "e", "TO", "W", ".", "whichChoice">>>>
=============================================================================
