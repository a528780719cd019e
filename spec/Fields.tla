------------------------------ MODULE Fields ------------------------------
(* Field storage, change notification and deletion (vrml/field.py,          *)
(* accelerate/src/fieldaccel2.pyx, vrml/node.py Node.__init__).             *)
(* Properties C01, C02, C03.                                                *)
(*                                                                          *)
(* State: for every node and field the label of the stored value, or "-".   *)
(* "d" is the field's default, "a" and "b" are two other canonical values,  *)
(* a trailing "!" marks a value changed in place by its reader.  Observing  *)
(* the state (snap) does not change it; reading a field stores its default. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NodeSeq, FieldSeq,   \* sequences of names
          Mutable              \* fields whose values can be changed in place

Range(s) == {s[k] : k \in 1..Len(s)}
Nodes == Range(NodeSeq)
Flds == Range(FieldSeq)
Vals == {"a", "b"}

Init0 == [n \in Nodes |-> [f \in Flds |-> "-"]]

\* what the field reads as, and the state after that read
ReadVal(st, n, f) == IF st[n][f] = "-" THEN "d" ELSE st[n][f]
ReadSt(st, n, f) == [st EXCEPT ![n][f] = ReadVal(st, n, f)]

Snap(st) ==
    [k \in 1..(Len(NodeSeq) * Len(FieldSeq)) |->
        LET n == NodeSeq[((k-1) \div Len(FieldSeq)) + 1]
            f == FieldSeq[((k-1) % Len(FieldSeq)) + 1]
        IN n \o "." \o f \o "=" \o st[n][f]]
    \o [k \in 1..Len(FieldSeq) |-> "default " \o FieldSeq[k] \o "=d"]

Note(kind, n, f, v, now) ==
    kind \o " " \o n \o "." \o f \o " " \o v \o " now " \o now

Obs(st, ret, notes) == [ret |-> ret, notes |-> notes, snap |-> Snap(st)]
Res(st, ret, notes) == [st |-> st, obs |-> Obs(st, ret, notes)]

---------------------------------------------------------------------------
Quiet(how) == how = "quiet"

\* a store by attribute assignment or through the field object
SetStep(st, op) ==
    IF op.v = "bad" THEN Res(st, "ValueError", <<>>)
    ELSE LET s2 == [st EXCEPT ![op.n][op.f] = op.v]
         IN Res(s2, "ok", IF Quiet(op.how) THEN <<>>
                          ELSE <<Note("set", op.n, op.f, op.v, op.v)>>)

\* node n gets the value node m reads as
CopyStep(st, op) ==
    LET v == ReadVal(st, op.m, op.f)
        s1 == ReadSt(st, op.m, op.f)
        s2 == [s1 EXCEPT ![op.n][op.f] = v]
    IN Res(s2, "ok", <<Note("set", op.n, op.f, v, v)>>)

GetStep(st, op) == Res(ReadSt(st, op.n, op.f), ReadVal(st, op.n, op.f), <<>>)

HasStep(st, op) == Res(st, IF st[op.n][op.f] = "-" THEN "0" ELSE "1", <<>>)

DelStep(st, op) ==
    IF st[op.n][op.f] = "-" THEN Res(st, "AttributeError", <<>>)
    ELSE LET s2 == [st EXCEPT ![op.n][op.f] = "-"]
         IN Res(s2, "ok", IF Quiet(op.how) THEN <<>>
                          ELSE <<Note("del", op.n, op.f, "None", "-")>>)

\* a store, or a deletion (of "-"), of which a receiver makes another store
AnsweredStep(st, op) ==
    LET r == IF op.v = "-" THEN DelStep(st, op) ELSE SetStep(st, op)
        s2 == [r.st EXCEPT ![op.m][op.g] = op.w]
    IN IF r.obs.notes = <<>> THEN r
       ELSE Res(s2, "ok", Append(r.obs.notes, Note("set", op.m, op.g, op.w, op.w)))

Mark(v) == IF Len(v) = 1 THEN v \o "!" ELSE v

\* the reader of a value changes it in place
MutStep(st, op) ==
    LET s1 == ReadSt(st, op.n, op.f)
        s2 == [s1 EXCEPT ![op.n][op.f] = Mark(@)]
    IN Res(s2, "ok", <<>>)

\* a constructor call with keywords; a rejected value leaves no new node
RECURSIVE NewNotes(_, _)
NewNotes(vals, k) ==
    IF k > Len(FieldSeq) THEN <<>>
    ELSE IF vals[FieldSeq[k]] = "bad" THEN <<>>
    ELSE IF vals[FieldSeq[k]] = "-" THEN NewNotes(vals, k+1)
    ELSE <<Note("set", "new", FieldSeq[k], vals[FieldSeq[k]], vals[FieldSeq[k]])>>
         \o NewNotes(vals, k+1)

NewStep(st, op) ==
    LET notes == NewNotes(op.vals, 1)
    IN IF \E f \in Flds : op.vals[f] = "bad"
       THEN Res(st, "ValueError", notes)
       ELSE Res([st EXCEPT ![op.n] = op.vals], "ok", notes)

Step(st, op) ==
    CASE op.k = "set" -> SetStep(st, op)
      [] op.k = "answered" -> AnsweredStep(st, op)
      [] op.k = "copy" -> CopyStep(st, op)
      [] op.k = "get" -> GetStep(st, op)
      [] op.k = "has" -> HasStep(st, op)
      [] op.k = "del" -> DelStep(st, op)
      [] op.k = "mut" -> MutStep(st, op)
      [] op.k = "new" -> NewStep(st, op)

Step0(params) == Init0
Enabled(st, op) == op.k = "mut" => op.f \in Mutable

Labels == {"-", "d", "a", "b", "d!", "a!", "b!"}
TypeOK(st) == \A n \in Nodes, f \in Flds :
    st[n][f] \in IF f \in Mutable THEN Labels ELSE {"-", "d", "a", "b"}
=============================================================================
