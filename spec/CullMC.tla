------------------------------- MODULE CullMC -------------------------------
EXTENDS Cull, Emit
CONSTANTS Mode, SimDepth, PlaneSet, PointSet, Margins, MaxPlanes, MaxPoints
VARIABLES st, hist, last
vars == <<st, hist, last>>
SomePlanes == {<<1,0,0,0>>, <<-1,0,0,1>>, <<0,1,-1,2>>}
MorePlanes == SomePlanes \cup {<<0,0,0,-1>>, <<0,0,2,-1>>}
SomePoints == {<<0,0,0>>, <<2,0,1>>, <<-2,1,0>>}
MorePoints == SomePoints \cup {<<-1,-1,3>>}
SomeMargins == {0, 1, -1}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == st = 0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> <<>>, inputs |-> ""]]
Do(op) == /\ st' = st /\ last' = [op |-> op, obs |-> Step(st, op).obs]
          /\ hist' = Extend(Mode, hist, op, Step(st, op).obs)
          /\ EmitHist(Mode, SimDepth, hist')
Call(pls, pts, m, layout, shape) ==
    [k |-> "cull", planes |-> pls, points |-> pts, margin |-> m, layout |-> layout, shape |-> shape]
Ask == \E pls \in SeqsUpTo(PlaneSet, MaxPlanes), pts \in SeqsUpTo(PointSet, MaxPoints), m \in Margins :
         \E layout \in {3, 4} : Do(Call(pls, pts, m, layout, "ok"))
Misuse == \E shape \in {"planes of 3", "planes of 5", "points of 2", "points of 5", "flat planes", "flat points",
                        "doubles", "list"} :
         Do(Call(<< <<1,0,0,0>> >>, << <<-2,1,0>> >>, 0, 3, shape))
Next == Ask \/ Misuse
Spec == Init /\ [][Next]_vars
View == st
\* C24: culled exactly if some plane has every point more than the margin behind it
Exactly == [][last'.op.shape = "ok" =>
    ((last'.obs.ret # <<"visible">>) <=>
       \E k \in 1..Len(last'.op.planes) : \A j \in 1..Len(last'.op.points) :
            Dist(last'.op.planes[k], last'.op.points[j]) + last'.op.margin < 0)]_vars
=============================================================================
