----------------------------- MODULE FieldsMC -----------------------------
(* Exhaustive exploration of Fields, and generation of behaviours.          *)
EXTENDS Fields, Emit

CONSTANTS Mode, SimDepth, Hows

VARIABLES st, hist, last
vars == <<st, hist, last>>

NodesDef == <<"n1", "n2">>
FieldsDef == <<"f1", "f2">>

Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> Obs(Init0, "", <<>>)]

Do(op) == LET r == Step(st, op)
          IN /\ st' = r.st
             /\ last' = [op |-> op, obs |-> r.obs]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')

Store == \E n \in Nodes, f \in Flds, v \in Vals \cup {"bad"}, how \in Hows :
            Do([k |-> "set", n |-> n, f |-> f, v |-> v, how |-> how])
StoreFrom == \E n, m \in Nodes, f \in Flds :
            Do([k |-> "copy", n |-> n, m |-> m, f |-> f])
Read == \E n \in Nodes, f \in Flds, how \in {"attr", "fget"} :
            Do([k |-> "get", n |-> n, f |-> f, how |-> how])
Ask == \E n \in Nodes, f \in Flds : Do([k |-> "has", n |-> n, f |-> f])
Delete == \E n \in Nodes, f \in Flds, how \in Hows :
            Do([k |-> "del", n |-> n, f |-> f, how |-> how])
Mutate == \E n \in Nodes, f \in Mutable : Do([k |-> "mut", n |-> n, f |-> f])
Answered == \E n, m \in Nodes, f, g \in Flds, v \in {"-", "a"} :
            Do([k |-> "answered", n |-> n, f |-> f, v |-> v, how |-> "attr", m |-> m, g |-> g, w |-> "b"])
Construct == \E n \in Nodes : \E vals \in [Flds -> {"-", "a", "bad"}] :
            Do([k |-> "new", n |-> n, vals |-> vals])

Next == Answered \/ Store \/ StoreFrom \/ Read \/ Ask \/ Delete \/ Mutate \/ Construct

Spec == Init /\ [][Next]_vars

View == st

---------------------------------------------------------------------------
TypeInv == TypeOK(st)

\* C01: an operation on one node and field leaves the others as they were
Frame == [][\A n \in Nodes, f \in Flds :
              (st'[n][f] # st[n][f]) =>
                 \/ last'.op.k \in {"set", "get", "del", "mut"} /\ last'.op.n = n /\ last'.op.f = f
                 \/ last'.op.k = "answered" /\ <<n, f>> \in {<<last'.op.n, last'.op.f>>, <<last'.op.m, last'.op.g>>}
                 \/ last'.op.k = "copy" /\ last'.op.f = f /\ n \in {last'.op.n, last'.op.m}
                 \/ last'.op.k = "new" /\ last'.op.n = n]_vars
\* C01: a rejected store changes nothing
Rejects == [][last'.obs.ret \in {"ValueError", "AttributeError"} => st' = st]_vars
\* C01: a read gives what was stored last, else the default, and never a
\* value some other node or field was given in place
ReadBack == [][last'.op.k = "get" => last'.obs.ret = ReadVal(st, last'.op.n, last'.op.f)]_vars
\* C02: one notification per loud store, none otherwise
Once == [][last'.op.k \in {"set", "copy"} =>
             Len(last'.obs.notes) =
               IF last'.obs.ret # "ok" \/ (last'.op.k = "set" /\ last'.op.how = "quiet") THEN 0 ELSE 1]_vars
Silent == [][last'.op.k \in {"get", "has", "mut"} => last'.obs.notes = <<>>]_vars
\* C03: deletion reverts to the default, needs a stored value
Reverts == [][last'.op.k = "del" =>
               /\ st'[last'.op.n][last'.op.f] = "-"
               /\ (last'.obs.ret = "ok") <=> (st[last'.op.n][last'.op.f] # "-")
               /\ Len(last'.obs.notes) = (IF last'.obs.ret = "ok" /\ last'.op.how # "quiet" THEN 1 ELSE 0)]_vars
=============================================================================
