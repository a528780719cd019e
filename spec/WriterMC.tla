----------------------------- MODULE WriterMC -----------------------------
(* Every scene which can be read from a sequence of pieces of text (see        *)
(* ReaderMC) and written: the reference writer's tokens give it back, and the  *)
(* implementation is made to write it.                                        *)
EXTENDS ReaderMC
W == INSTANCE Scribe

\* what has been read, with what is open closed
Closed == FoldLeft(Read, m, Tokens(Closing(m)))
RoundTrip == m.err = "" => \/ "?" \in Range(Closing(m))
                           \/ LET mm == TLCEval(Ended(TLCEval(Closed))) IN W!Writable(mm) => W!Faithful(mm)

Styles == <<"plain", "minimal1", "comments", "bare", "spaced">>
Hows == <<"parse", "make", "keywords">>
OpTok(w) == IF SubSeq(w, 1, 1) = "\"" THEN [t |-> "s", v |-> Explode(SubSeq(w, 2, Len(w)))] ELSE [t |-> "w", v |-> w]
Op(o) == <<o, <<>>>>
\* the operations for a program: to be recorded, and checked by WriterTrace
Jobs(toks) ==
    IF Mode # "gen" \/ "?" \in Range(toks) THEN TRUE
    ELSE LET mm == TLCEval(ReadAll(TLCEval(Tokens(toks))))
             k == Len(toks)
         IN IF mm.err # "" THEN TRUE
            ELSE IF ~W!Writable(mm) THEN TRUE
            ELSE EmitHist("gen", 0, <<Op([k |-> "load", s |-> 1, toks |-> [i \in 1..k |-> OpTok(toks[i])], how |-> Hows[(k % 3) + 1]]),
                                      Op([k |-> "write", s |-> 1, style |-> Styles[((k \div 3) % 5) + 1]]),
                                      Op([k |-> "part", s |-> 1, ids |-> <<1>>, style |-> "plain"])>>)
=============================================================================
