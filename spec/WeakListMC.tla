---------------------------- MODULE WeakListMC ----------------------------
EXTENDS WeakList, Emit
CONSTANTS Mode, SimDepth, MaxLen, Kids, MaxVals

VARIABLES st, hist, last
vars == <<st, hist, last>>

IdxDef == -3..2
BoundDef == {-2, 0, 1, 3, NONE}
StridesDef == {NONE, 2, -1, 0}
SeqsUpTo(n) == UNION {[1..m -> Kids \cap st.alive] : m \in 0..n}
Live0 == Kids \cap st.alive

Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], ret |-> ""]
Do(op) == LET r == Step(st, op)
          IN /\ Len(r.st.list) <= MaxLen
             /\ st' = r.st
             /\ last' = [op |-> op, ret |-> r.obs.ret]
             /\ hist' = Extend(Mode, hist, op, r.obs)
             /\ EmitHist(Mode, SimDepth, hist')

DoInit == \E v \in SeqsUpTo(MaxLen) : Do([k |-> "init", v |-> v])
DoDie == \E x \in Live0 : Do([k |-> "die", x |-> x])
DoBorn == \E x \in Kids \ st.alive : Do([k |-> "born", x |-> x])
DoIterDie == \E x \in Live0, p \in 0..MaxLen : Do([k |-> "iterdie", x |-> x, p |-> p])
DoAppend == \E x \in Live0 : Do([k |-> "append", x |-> x])
DoInsert == \E x \in Live0, i \in IdxDef : Do([k |-> "insert", x |-> x, i |-> i])
DoExtend == \E k \in {"extend", "iadd"}, v \in SeqsUpTo(MaxVals) : Do([k |-> k, v |-> v])
DoWhole == \E k \in {"clear", "reverse", "sort", "sortdown", "len", "iter", "getall", "reversed", "double"} : Do([k |-> k])
DoPop == \E i \in IdxDef \cup {NONE} : Do([k |-> "pop", i |-> i])
DoFind == \E x \in Live0, k \in {"remove", "index", "count", "in", "copy"} : Do([k |-> k, x |-> x])
DoAt == \E i \in IdxDef, k \in {"del", "get"} : Do([k |-> k, i |-> i])
DoPut == \E i \in IdxDef, x \in Live0 : Do([k |-> "put", i |-> i, x |-> x])
DoSlice == \E i, j \in BoundDef, s \in StridesDef, k \in {"slice", "dslice"} :
              Do([k |-> k, i |-> i, j |-> j, s |-> s])
DoPutSlice == \E i, j \in BoundDef, s \in StridesDef, v \in SeqsUpTo(MaxVals) :
              Do([k |-> "pslice", i |-> i, j |-> j, s |-> s, v |-> v])
DoCmp == \E o \in {"eq", "ne", "lt", "le", "gt", "ge"}, v \in SeqsUpTo(MaxVals) : Do([k |-> "cmp", o |-> o, v |-> v])
DoAdd == \E v \in SeqsUpTo(MaxVals) : Do([k |-> "add", v |-> v])

Next == DoInit \/ DoDie \/ DoBorn \/ DoIterDie \/ DoAppend \/ DoInsert \/ DoExtend \/ DoWhole \/ DoPop \/ DoFind
        \/ DoAt \/ DoPut \/ DoSlice \/ DoPutSlice \/ DoCmp \/ DoAdd
Spec == Init /\ [][Next]_vars
View == st
---------------------------------------------------------------------------
TypeInv == TypeOK(st)
\* C08: a death takes its object out of every position and nothing else
Deaths == [][last'.op.k \in {"die", "iterdie"} =>
               /\ st'.list = DropAll(st.list, last'.op.x)
               /\ st'.alive = st.alive \ {last'.op.x}]_vars
\* nothing else changes who is alive
Frame == [][last'.op.k \notin {"die", "iterdie", "born"} => st'.alive = st.alive]_vars
Rejects == [][last'.ret \in {"IndexError", "ValueError"} => st' = st]_vars
=============================================================================
