------------------------------ MODULE OListMC ------------------------------
EXTENDS OList, Emit

CONSTANTS Mode, SimDepth, MaxLen, Kids, MaxVals, Idx, Bound, Strides

IdxDef == -4..3
BoundDef == {-3, -1, 0, 1, 2, 4, NONE}
StridesDef == {NONE, 2, -1, 0}

VARIABLES st, hist, last
vars == <<st, hist, last>>

SeqsUpTo(n) == UNION {[1..m -> Kids] : m \in 0..n}

Init == st = <<>> /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> Obs(<<>>, "", <<>>, <<>>)]

Do(op) == LET r == Step(st, op)
          IN /\ Len(r.st) <= MaxLen
             /\ st' = r.st
             /\ last' = [op |-> op, obs |-> r.obs]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')

DoAppend == \E x \in Kids : Do([k |-> "append", x |-> x])
DoInsert == \E x \in Kids, i \in Idx : Do([k |-> "insert", x |-> x, i |-> i])
DoExtend == \E k \in {"extend", "iadd"}, v \in SeqsUpTo(MaxVals) : Do([k |-> k, v |-> v])
DoRepeat == \E i \in {-1, 0, 1, 2} : Do([k |-> "imul", i |-> i])
DoWhole == \E k \in {"clear", "reverse", "sort"} : Do([k |-> k])
DoPop == \E i \in Idx \cup {NONE} : Do([k |-> "pop", i |-> i])
DoRemove == \E x \in Kids, k \in {"remove", "index"} : Do([k |-> k, x |-> x])
DoDelete == \E i \in Idx : Do([k |-> "del", i |-> i])
DoGet == \E i \in Idx : Do([k |-> "get", i |-> i])
DoPut == \E i \in Idx, x \in Kids : Do([k |-> "put", i |-> i, x |-> x])
DoDelSlice == \E i, j \in Bound, s \in Strides : Do([k |-> "dslice", i |-> i, j |-> j, s |-> s])
DoPutSlice == \E i, j \in Bound, s \in Strides, v \in SeqsUpTo(MaxVals) :
                 Do([k |-> "pslice", i |-> i, j |-> j, s |-> s, v |-> v])
DoWrong == \E how \in {"extend", "iadd", "pslice"} : Do([k |-> "notiterable", how |-> how])

Next == DoAppend \/ DoInsert \/ DoExtend \/ DoRepeat \/ DoWhole \/ DoPop \/ DoRemove \/ DoDelete
        \/ DoGet \/ DoPut \/ DoDelSlice \/ DoPutSlice \/ DoWrong
Spec == Init /\ [][Next]_vars
View == st
---------------------------------------------------------------------------
\* C06: the events balance the change of the contents (a slice assignment does
\* not announce more or fewer duplicates of an element it keeps)
Kept(x) == /\ last'.op.k = "pslice"
           /\ x \in RangeOf(last'.op.v)
           /\ x \in RangeOf(Slice(st, last'.op.i, last'.op.j, last'.op.s))
Balance == [][\A x \in Kids : Kept(x) \/ Count(st', x) - Count(st, x)
                 = Count(last'.obs.addeds, x) - Count(last'.obs.dels, x)]_vars
\* C06: what a list rejects changes nothing and is not announced
Rejects == [][last'.obs.ret \in {"IndexError", "ValueError", "TypeError"} =>
                st' = st /\ last'.obs.addeds = <<>> /\ last'.obs.dels = <<>>]_vars
\* nothing is announced unless the contents change, except replaced duplicates
Quiet == [][(last'.op.k \in {"reverse", "sort", "get", "index"}) =>
                last'.obs.addeds = <<>> /\ last'.obs.dels = <<>>]_vars
\* only members are announced as removed, and only new members as added
Truthful == [][/\ RangeOf(last'.obs.addeds) \subseteq RangeOf(st')
               /\ RangeOf(last'.obs.dels) \subseteq RangeOf(st)]_vars
=============================================================================
