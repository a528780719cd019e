---------------------------- MODULE WeakTupleMC ----------------------------
EXTENDS WeakTuple, Emit
CONSTANTS Mode, SimDepth, MaxLen, Kids, MaxVals

VARIABLES st, hist, last
vars == <<st, hist, last>>
IdxDef == -4..3
BoundDef == {-2, 0, 1, 2, 3, NONE}
StridesDef == {NONE, 2, -1, 0}
Live0 == Kids \cap st.alive
SeqsUpTo(n) == UNION {[1..m -> Live0] : m \in 0..n}

Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], ret |-> ""]
Do(op) == LET r == Step(st, op)
          IN /\ st' = r.st
             /\ last' = [op |-> op, ret |-> r.obs.ret]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')

DoNew == \E v \in SeqsUpTo(MaxLen) : Do([k |-> "new", v |-> v])
DoDie == \E x \in Live0 : Do([k |-> "die", x |-> x])
DoWhole == \E k \in {"len", "iter"} : Do([k |-> k])
DoGet == \E i \in IdxDef : Do([k |-> "get", i |-> i])
DoSlice == \E i, j \in BoundDef, s \in StridesDef : Do([k |-> "slice", i |-> i, j |-> j, s |-> s])
DoFind == \E k \in {"in", "count"}, x \in Live0 : Do([k |-> k, x |-> x])
DoWith == \E k \in {"add", "eq", "ne"}, v \in SeqsUpTo(MaxVals) : Do([k |-> k, v |-> v])
DoHold == \/ \E v \in SeqsUpTo(1) : Do([k |-> "hold", how |-> "add", v |-> v])
          \/ \E i \in {0, 1} : Do([k |-> "hold", how |-> "slice", i |-> i])
          \/ Do([k |-> "hold", how |-> "list"])
          \/ Do([k |-> "forget"])

Next == DoNew \/ DoDie \/ DoWhole \/ DoGet \/ DoSlice \/ DoFind \/ DoWith \/ DoHold
Spec == Init /\ [][Next]_vars
View == st
---------------------------------------------------------------------------
\* C09: the length never changes but by making another tuple
Fixed == [][last'.op.k # "new" => st'.items = st.items]_vars
\* C09: a whole-tuple access with a dead member fails
Loud == [][(~All(st) /\ last'.op.k \in {"count", "add", "eq", "ne"}) => last'.ret = "ReferenceError"]_vars
\* C09: and none fails without one
Sound == [][(last'.ret = "ReferenceError") => ~All(st)]_vars
\* C09: what was taken out stays as long as it is kept
Holds == [][(last'.op.k \notin {"hold", "forget"}) => st'.held = st.held]_vars
=============================================================================
