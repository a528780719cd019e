------------------------------- MODULE NullMC -------------------------------
EXTENDS Null, Emit
CONSTANTS Mode, SimDepth, MaxLen, Held, Wheres, Fields
VARIABLES st, hist, last
vars == <<st, hist, last>>
Init == st = Init0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> <<>>, snap |-> Snap(Init0)]]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ Len(r.st.kids) <= MaxLen /\ Len(r.st.list) <= MaxLen
                /\ st' = r.st
                /\ last' = [op |-> op, obs |-> r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
Hows == {"copy", "deepcopy", "pickle", "clone", "method", "copier", "list", "none", "default", "parsed"}
Vs == {<<>>} \cup {<<x>> : x \in Held} \cup {<<x, y>> : x, y \in Held}
Given == {"none", "[NULL]", "zero", "text"} \cup Held
Equal == \E x \in Things : Do([k |-> "eq", x |-> x])
Truth == \E x \in Held : Do([k |-> "truth", x |-> x])
Another == \E h \in Hows : Do([k |-> "another", how |-> h])
Texts == Do([k |-> "texts"])
Put == \E f \in Fields, x \in Things \ (Members \ Held) : Do([k |-> "put", f |-> f, x |-> x])
Del == \E f \in Fields : Do([k |-> "del", f |-> f])
Assign == \E x, y \in Given : Do([k |-> "assign", v |-> <<x, y>>])
Single == \E x \in Held \cup {"none"} : Do([k |-> "single", x |-> x])
Append1 == \E w \in Wheres, x \in Held : Do([k |-> "append", w |-> w, x |-> x])
Remove == \E w \in Wheres, x \in Held : Do([k |-> "remove", w |-> w, x |-> x])
Item == \E w \in Wheres, x \in Held, i \in {-1, 0, 1} : Do([k |-> "item", w |-> w, x |-> x, i |-> i])
Slice1 == \E w \in Wheres, v \in Vs, i \in {0, 1}, j \in {0, 2} : Do([k |-> "slice", w |-> w, v |-> v, i |-> i, j |-> j])
Find == \E w \in Wheres, x \in Held : Do([k |-> "find", w |-> w, x |-> x])
True1 == \E w \in Wheres : Do([k |-> "true", w |-> w])
Add == \E x \in Held : Do([k |-> "add", x |-> x])
Discard == \E x \in Held : Do([k |-> "discard", x |-> x])
Has == \E x \in Held : Do([k |-> "has", x |-> x])
Copy == Do([k |-> "copy"])
Next == \/ Equal \/ Truth \/ Another \/ Texts \/ Put \/ Del \/ Assign \/ Single \/ Append1 \/ Remove \/ Item
        \/ Slice1 \/ Find \/ True1 \/ Add \/ Discard \/ Has \/ Copy
Spec == Init /\ [][Next]_vars
View == st
TypeInv == TypeOK(st)
\* C28: asking, comparing and copying change nothing
Asks == [][last'.op.k \in {"eq", "truth", "another", "texts", "find", "true", "has", "copy"} => st' = st]_vars
\* C28: removing or discarding NULL takes NULL away, removing something else leaves NULL
Apart == [][/\ last'.op.k = "remove" => (Count(st'.kids, "NULL") + Count(st'.list, "NULL")
                                        = Count(st.kids, "NULL") + Count(st.list, "NULL")
                                          - (IF last'.op.x = "NULL" /\ last'.obs.ret = <<"ok">> THEN 1 ELSE 0))
            /\ last'.op.k = "discard" => ("NULL" \in st'.set) = ("NULL" \in st.set /\ last'.op.x # "NULL")]_vars
\* C28: nothing but nodes is stored, whatever is given
Rejects == [][last'.obs.ret = <<"ValueError">> => st' = st]_vars
\* C28: copies hold NULL exactly where the original does
Keeps == [][last'.op.k = "copy" => \A q \in 1..Len(st.kids) : (last'.obs.ret[q + 2] = "NULL") = (st.kids[q] = "NULL")]_vars
=============================================================================
