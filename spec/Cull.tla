-------------------------------- MODULE Cull --------------------------------
(* Frustum culling (accelerate/src/frustcullaccel.pyx).  Property C24.       *)
(* The function has no state; coordinates are whole quarters.               *)
EXTENDS Naturals, Integers, Sequences, TLC

\* planes: sequence of <<a, b, c, d>>, points: sequence of <<x, y, z>> (in units),
\* margin: how far behind a plane all points must be
Dist(pl, pt) == pl[1] * pt[1] + pl[2] * pt[2] + pl[3] * pt[3] + pl[4]
Behind(pl, pts, margin) == \A k \in 1..Len(pts) : Dist(pl, pts[k]) < -margin
RECURSIVE First(_, _, _, _)
First(pls, pts, margin, k) ==
    IF k > Len(pls) THEN 0 ELSE IF Behind(pls[k], pts, margin) THEN k ELSE First(pls, pts, margin, k + 1)
Text(n) == ToString(n)
Answer(op) ==
    IF op.shape # "ok" THEN <<"error">>
    ELSE LET k == First(op.planes, op.points, op.margin, 1)
         IN IF k = 0 THEN <<"visible">>
            ELSE <<"culled by">> \o [i \in 1..4 |-> Text(op.planes[k][i])]
Step0(params) == 0
Step(st, op) == [st |-> st, obs |-> [ret |-> Answer(op), inputs |-> "unchanged"]]
Enabled(st, op) == TRUE
TypeOK(st) == TRUE
=============================================================================
