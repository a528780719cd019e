----------------------------- MODULE RoutesMC -----------------------------
EXTENDS Routes, Emit
CONSTANTS Mode, SimDepth, Vals, Hows, RouteKinds, MaxRoutes, MeddleVals
VARIABLES st, hist, last
vars == <<st, hist, last>>

\* the name of a port is its node and its field
SmallPorts == <<"A.i", "B.f", "C.e">>
SmallKind == ("A.i" :> "int" @@ "B.f" :> "float" @@ "C.e" :> "handled")
OtherPorts == <<"A.s", "B.l", "B.i">>
OtherKind == ("A.s" :> "str" @@ "B.l" :> "list" @@ "B.i" :> "int")
EventPorts == <<"A.h", "A.e", "B.h">>
EventKind == ("A.h" :> "handled" @@ "A.e" :> "event" @@ "B.h" :> "handled")
LargePorts == <<"A.i", "B.f", "B.s", "C.e">>
LargeKind == ("A.i" :> "int" @@ "B.f" :> "float" @@ "B.s" :> "str" @@ "C.e" :> "handled")
NodeOf(p) == SubSeq(p, 1, 1)

Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> "", notes |-> <<>>, snap |-> <<>>]]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, obs |-> r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')

Store == \E p \in Ports, v \in Vals, how \in Hows : Do([k |-> "set", p |-> p, v |-> v, how |-> how])
Delete == \E p \in Ports : Do([k |-> "del", p |-> p])
Read == MeddleVals = {} /\ \E p \in Ports : Do([k |-> "get", p |-> p])
Connect == /\ Len(st.r) < MaxRoutes
           /\ \E s, d \in Ports, kind \in RouteKinds :
                 /\ kind = "IS" => NodeOf(s) # NodeOf(d)
                 /\ Do([k |-> "route", kind |-> kind, s |-> s, d |-> d])
Drop == MeddleVals = {} /\ \E i \in 1..MaxRoutes : Do([k |-> "drop", i |-> i])
Retarget == MeddleVals = {} /\ \E i \in 1..MaxRoutes, d \in Ports : Do([k |-> "retarget", i |-> i, d |-> d])
Meddle == st.m.p = "-" /\ \E p, q \in Ports, v \in MeddleVals : Do([k |-> "meddle", p |-> p, q |-> q, v |-> v])
Next == Meddle \/ Store \/ Delete \/ Read \/ Connect \/ Drop \/ Retarget
Spec == Init /\ [][Next]_vars
View == st

---------------------------------------------------------------------------
TypeInv == TypeOK(st)
Reached(r, p) ==
    LET step(S) == S \cup {d \in Ports : \E q \in S : \E k \in 1..Len(Links(r, q, 1)) : Links(r, q, 1)[k] = d}
    IN step(step(step(step({p}))))
Loud == last'.op.k = "del" \/ (last'.op.k = "set" /\ last'.op.how # "quiet" /\ last'.obs.ret = "ok")
\* C13: what is not reachable is not changed
Frame == [][\A q \in Ports : st'.v[q] # st.v[q] =>
              /\ last'.op.k \in {"set", "del"}
              /\ q \in IF Loud THEN Reached(st.r, last'.op.p) \cup
                                   (IF st.m.p \in Reached(st.r, last'.op.p) THEN Reached(st.r, st.m.q) ELSE {}) ELSE {last'.op.p}]_vars
\* C13: an accepted value reaches the direct destinations which accept it, unless
\* another route brings them, or the source itself, another value
Delivered == [][(Loud /\ last'.op.k = "set") =>
              LET p == last'.op.p
                  c == Conv(Kind[p], last'.op.v)
                  ds == Links(st.r, p, 1)
                  into(d) == Cardinality({<<q, k>> \in (Ports \X (1..MaxRoutes)) : k <= Len(Links(st.r, q, 1)) /\ Links(st.r, q, 1)[k] = d})
              IN (\A k \in 1..Len(ds) : p \notin Reached(st.r, ds[k])) =>
                   \A k \in 1..Len(ds) : (into(ds[k]) = 1 /\ st.m.p = "-" /\ Conv(Kind[ds[k]], c) # Reject)
                       => st'.v[ds[k]] = Conv(Kind[ds[k]], c)]_vars
\* C13: a destination is told once in a cascade
Heard(p) == Cardinality({k \in 1..Len(last'.obs.notes) :
               \E v \in Values \cup {"s2", "s1.0", "s2.0", "s0.0", "l[0]", "sx1"} : last'.obs.notes[k] = p \o ": route " \o v \o " now " \o v})
Once == [][(st.m.p = st.m.q /\ last'.op.k \in {"set", "del"}) =>
             \A p \in Ports : Heard(p) <= Len(Links(st.r, last'.op.p, 1))]_vars
\* a rejected or quiet store is told to nobody
Rejects == [][last'.obs.ret \in {"ValueError", "AttributeError"} => st' = st]_vars
=============================================================================
