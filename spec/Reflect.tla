------------------------------ MODULE Reflect ------------------------------
(* Reflection over prototypes (vrml/protofunctions.py).  Property C22.      *)
(*                                                                          *)
(* decl[c][k] is the declaration made directly in class c under attribute   *)
(* name k: its kind ("field", "event" or "none") and the storage name.      *)
EXTENDS PyList, TLC

CONSTANTS ClassSeq, KeySeq, NameSeq, MRO
\* ClassSeq: the classes declarations are made in.  MRO: resolution order of
\* each, ending with "Node", which declares the built-in fields.
Keys == RangeOf(KeySeq)
Classes == RangeOf(ClassSeq)
Names == RangeOf(NameSeq)

Absent == [kind |-> "none", store |-> ""]
BuiltinSeq == <<"DEF", "externalURL", "rootSceneGraph">>
Builtin == [k \in RangeOf(BuiltinSeq) |->
    [kind |-> "field", store |-> CASE k = "DEF" -> " DEF" [] k = "rootSceneGraph" -> " root" [] OTHER -> k]]
AllKeySeq == BuiltinSeq \o KeySeq
AllKeys == RangeOf(AllKeySeq)

\* "Node" is there for its declarations, which never change
Init0 == [c \in Classes \cup {"Node"} |->
    [k \in AllKeys |-> IF c = "Node" /\ k \in DOMAIN Builtin THEN Builtin[k] ELSE Absent]]
At(st, c, k) == st[c][k]

\* the class whose declaration of k counts, the first of the sequence
RECURSIVE FirstOf(_, _, _, _)
FirstOf(st, seq, k, n) == IF n > Len(seq) THEN "none"
                          ELSE IF st[seq[n]][k].kind # "none" THEN seq[n] ELSE FirstOf(st, seq, k, n + 1)
Owner(st, c, k) == FirstOf(st, MRO[c], k, 1)
Label(st, owner, k) == LET d == At(st, owner, k) IN owner \o "." \o k \o ":" \o d.kind \o ":" \o d.store

RECURSIVE ListFrom(_, _, _, _)
ListFrom(st, c, kind, i) ==
    IF i > Len(AllKeySeq) THEN <<>>
    ELSE LET k == AllKeySeq[i]
             o == Owner(st, c, k)
         IN (IF o # "none" /\ At(st, o, k).kind = kind THEN <<Label(st, o, k)>> ELSE <<>>) \o ListFrom(st, c, kind, i + 1)
Listing(st, c, kind) == ListFrom(st, c, kind, 1)

\* the attribute names whose declarations of that kind have this storage name
Stored(st, c, kind, n) == {i \in 1..Len(AllKeySeq) :
    LET o == Owner(st, c, AllKeySeq[i])
    IN o # "none" /\ At(st, o, AllKeySeq[i]).kind = kind /\ At(st, o, AllKeySeq[i]).store = n}
Clear(st, c, n) == \/ n \in AllKeys /\ Owner(st, c, n) # "none"
                   \/ Cardinality(Stored(st, c, "field", n)) <= 1 /\ Cardinality(Stored(st, c, "event", n)) <= 1

\* n without its prefix, or else its suffix; "" if it has neither
StripFn == [n \in Names |->
    LET pre == {m \in Names : n = "set_" \o m}
        post == {m \in Names : n = m \o "_changed"}
    IN IF pre # {} THEN CHOOSE m \in pre : TRUE
       ELSE IF post # {} THEN CHOOSE m \in post : TRUE ELSE ""]
Stripped(n) == IF n \in Names THEN StripFn[n] ELSE ""

\* <<owner, key>> found for a name, <<>> if there is none
RECURSIVE Found(_, _, _)
Found(st, c, n) ==
    IF n \in AllKeys /\ Owner(st, c, n) # "none" THEN <<Owner(st, c, n), n>>
    ELSE LET f == Stored(st, c, "field", n)
             e == Stored(st, c, "event", n)
             pick(s) == LET k == AllKeySeq[CHOOSE i \in s : TRUE] IN <<Owner(st, c, k), k>>
         IN IF f # {} THEN pick(f)
            ELSE IF e # {} THEN pick(e)
            ELSE IF Stripped(n) # "" THEN Found(st, c, Stripped(n))
            ELSE <<>>

\* the lookup comes upon no two declarations of a kind with the name as storage name
RECURSIVE Unambiguous(_, _, _)
Unambiguous(st, c, n) == Clear(st, c, n) /\ (Stripped(n) # "" => Unambiguous(st, c, Stripped(n)))

RECURSIVE SnapFrom(_, _), Blanks(_, _)
Blanks(s, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE " | ") \o s[k] \o Blanks(s, k + 1)
SnapFrom(st, i) ==
    IF i > Len(ClassSeq) THEN <<>>
    ELSE LET c == ClassSeq[i]
         IN <<c \o " fields " \o Blanks(Listing(st, c, "field"), 1), c \o " events " \o Blanks(Listing(st, c, "event"), 1)>>
            \o SnapFrom(st, i + 1)
Res(st, ret) == [st |-> st, obs |-> [ret |-> ret, snap |-> SnapFrom(st, 1)]]

Step(st, op) ==
    CASE op.k = "declare" -> Res([st EXCEPT ![op.c][op.key] = [kind |-> op.kind, store |-> op.store]], <<"ok">>)
      \* by attribute name, or with the declaration, which removes what is declared under its storage name
      [] op.k = "remove" ->
            IF st[op.c][op.key].kind = "none" THEN Res(st, <<"AttributeError">>)
            ELSE Res([st EXCEPT ![op.c][op.key] = Absent], <<"ok">>)
      [] op.k = "list" -> Res(st, Listing(st, op.c, op.kind))
      [] op.k = "look" -> LET f == Found(st, op.c, op.n)
                          IN Res(st, IF f = <<>> THEN <<"AttributeError">> ELSE <<Label(st, f[1], f[2])>>)
      \* a node made with a keyword for the field's name holds the value under the declaration's storage name
      [] op.k = "make" -> LET f == Found(st, op.c, op.n)
                          IN Res(st, IF f = <<>> \/ At(st, f[1], f[2]).kind = "event" THEN <<"AttributeError">>
                                     ELSE <<At(st, f[1], f[2]).store>>)
Step0(params) == Init0
Enabled(st, op) ==
    CASE op.k \in {"look", "make"} -> /\ op.n \in Names /\ Unambiguous(st, op.c, op.n)
                                      /\ (op.k = "make" /\ Found(st, op.c, op.n) # <<>>) => Found(st, op.c, op.n)[1] # "Node"
      [] OTHER -> TRUE
TypeOK(st) == \A c \in Classes, k \in AllKeys : st[c][k].kind \in {"none", "field", "event"}
=============================================================================
