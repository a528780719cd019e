------------------------------ MODULE Reader ------------------------------
(* Reading VRML97 texts (C20), and the interfaces of the standard nodes (C27). *)
(* What a text means depends on the text alone, so the state only counts.     *)
EXTENDS Vrml

Tokens(words) == [i \in 1..Len(words) |-> TokenOf(words[i])]
Row(r, withDefault) == r.x \o " " \o r.t \o " " \o r.n \o
    (IF withDefault /\ r.x \in {"field", "exposedField"} /\ r.t \notin NodeTypes THEN " = " \o ValueFor(r.t, r.d).v ELSE "")
\* the interface of a standard node, as far as the standard declares it
Interface(n) == LET rows == StdNodes[n] IN [i \in 1..Len(rows) |-> Row(rows[i], TRUE)]

Step0(params) == [n |-> 0]
Do1(op) ==
    CASE op.k = "parse" -> TLCEval(Outcome(TLCEval(ReadAll(TLCEval(Lex(op.text)))), FALSE))
      [] op.k = "read" -> TLCEval(Outcome(TLCEval(ReadAll(TLCEval(Tokens(op.toks)))), FALSE))
      [] op.k = "interface" -> [ret |-> "ok", dump |-> Interface(op.n)]
Step(st, op) == [st |-> [n |-> (st.n + 1) % 2], obs |-> Do1(op)]
Enabled(st, op) == (op.k \in {"parse", "read"} /\ Do1(op).ret # "undefined") \/ (op.k = "interface" /\ op.n \in DOMAIN StdNodes)
TypeOK(st) == st.n \in {0, 1}
=============================================================================
