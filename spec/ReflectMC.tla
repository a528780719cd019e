----------------------------- MODULE ReflectMC -----------------------------
EXTENDS Reflect, Emit
CONSTANTS Mode, SimDepth, MaxDecls, LookIn
VARIABLES st, hist, last
vars == <<st, hist, last>>
TwoClasses == <<"Base", "Leaf">>
TwoMRO == [c \in {"Base", "Leaf"} |-> IF c = "Base" THEN <<"Base", "Node">> ELSE <<"Leaf", "Base", "Node">>]
DiaClasses == <<"Base", "Left", "Mix", "Leaf">>
DiaMRO == [c \in {"Base", "Left", "Mix", "Leaf"} |->
    CASE c = "Base" -> <<"Base", "Node">> [] c = "Left" -> <<"Left", "Base", "Node">>
      [] c = "Mix" -> <<"Mix", "Base", "Node">>
      [] c = "Leaf" -> <<"Leaf", "Left", "Mix", "Base", "Node">>]
XY == <<"x", "y">>
X == <<"x">>
Prefixed == <<"x", "set_x", "x_changed">>
Few == <<"x", " x", "y", "set_x", "x_changed", "set_x_changed", "set_y", "set_ x", "DEF", " DEF", "set_DEF", " root", "zzz", "set_zzz">>
Short == <<"x", " x", "set_x", "x_changed">>
Ways(k) == CASE k = "x" -> {<<"field", "x">>, <<"field", " x">>, <<"event", " x">>}
             [] k = "y" -> {<<"field", "x">>, <<"event", "y">>, <<"field", "set_x">>}
             [] OTHER -> {<<"field", k>>, <<"event", k>>}
Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> <<>>, snap |-> <<>>]]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, obs |-> r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
Count1 == Cardinality({p \in Classes \X Keys : st[p[1]][p[2]].kind # "none"})
Declare == \E c \in Classes, k \in Keys : (Count1 < MaxDecls \/ st[c][k].kind # "none") /\ \E w \in Ways(k) :
    Do([k |-> "declare", c |-> c, key |-> k, kind |-> w[1], store |-> w[2]])
Remove == \E c \in Classes, k \in Keys : Do([k |-> "remove", c |-> c, key |-> k])
List == \E c \in Classes, kind \in {"field", "event"} : Do([k |-> "list", c |-> c, kind |-> kind])
Look == \E c \in Classes \cap LookIn, n \in Names : Do([k |-> "look", c |-> c, n |-> n])
Make == \E c \in Classes \cap LookIn, n \in Names : Do([k |-> "make", c |-> c, n |-> n])
Next == Declare \/ Remove \/ List \/ Look \/ Make
Spec == Init /\ [][Next]_vars
View == st
TypeInv == TypeOK(st)
\* C22: what is listed is declared in the class or one of its bases, once for each attribute name
Declared == \A c \in Classes, k \in Keys :
    LET o == Owner(st, c, k) IN
    /\ o # "none" => \E i \in 1..Len(MRO[c]) : MRO[c][i] = o /\ \A j \in 1..i-1 : At(st, MRO[c][j], k).kind = "none"
    /\ o = "none" => \A i \in 1..Len(MRO[c]) : At(st, MRO[c][i], k).kind = "none"
\* C22: a change in a class changes the interface of it and the classes derived from it only
Inherits == [][last'.op.k \in {"declare", "remove"} =>
    \A c \in Classes : (\A i \in 1..Len(MRO[c]) : MRO[c][i] # last'.op.c) =>
        \A kind \in {"field", "event"} : Listing(st', c, kind) = Listing(st, c, kind)]_vars
\* C22: an attribute name always finds its own declaration
Exact == \A c \in Classes, k \in Keys : Owner(st, c, k) # "none" => Found(st, c, k) = <<Owner(st, c, k), k>>
=============================================================================
