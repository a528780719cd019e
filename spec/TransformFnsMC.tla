-------------------------- MODULE TransformFnsMC --------------------------
EXTENDS TransformFns, Emit
CONSTANTS Mode, SimDepth, Ts, Cs, Rs, Ss, Os, Ps
VARIABLES st, hist, last
vars == <<st, hist, last>>

AllRots == RotNames
NearFar == {<<1, 2>>, <<2, 4>>}
Spans == {<<-1, 1>>, <<-2, 2>>, <<0, 4>>, <<1, 2>>, <<-3, 1>>}

Init == st = 0 /\ hist = <<>> /\ last = [op |-> [k |-> "-"]]
Do(op) == /\ st' = st /\ last' = [op |-> op]
          /\ hist' = Extend(Mode, hist, op, Step(st, op).obs)
          /\ EmitHist(Mode, SimDepth, hist')

Both == {"transformMatrix", "transformMatrices0", "itransformMatrix", "transformMatrices1",
         "localMatrices0", "localMatrices1"}
Composed == \E fn \in Both, t \in Ts, c \in Cs, r \in Rs, s \in Ss, o \in Os, p \in Ps :
              /\ fn \in {"localMatrices0", "localMatrices1"} => p = "none"
              /\ Do([fn |-> fn, t |-> t, c |-> c, r |-> r, s |-> s, o |-> o, p |-> p])
Singular == \E fn \in {"transformMatrix"}, c \in Cs, r \in Rs :
              Do([fn |-> fn, t |-> "p", c |-> c, r |-> r, s |-> "flat", o |-> "qx", p |-> "none"])
Parts == \/ \E fn \in {"trans0", "trans1"}, t \in DOMAIN Points : Do([fn |-> fn, t |-> t])
         \/ \E fn \in {"rot0", "rot1"}, r \in RotNames : Do([fn |-> fn, r |-> r])
         \/ \E fn \in {"scale0", "scale1"}, s \in DOMAIN Scales :
               (fn = "scale1" => s # "flat") /\ Do([fn |-> fn, s |-> s])
Centers == \E t \in DOMAIN Points, c \in DOMAIN Points, p \in DOMAIN Parents : Do([fn |-> "center", t |-> t, c |-> c, p |-> p])
Views == \/ \E fn \in {"perspective0", "perspective1"}, a, b \in {1, 2}, nf \in NearFar :
              Do([fn |-> fn, a |-> a, b |-> b, near |-> nf[1], far |-> nf[2]])
         \/ \E x, y, z \in Spans : Do([fn |-> "ortho", x1 |-> x[1], x2 |-> x[2], y1 |-> y[1], y2 |-> y[2],
                                       z1 |-> z[1], z2 |-> z[2]])
Next == Composed \/ Singular \/ Parts \/ Centers \/ Views
Spec == Init /\ [][Next]_vars
View == st
\* C12: the inverse is the inverse, on the grid (checked in the initial state)
Inverses == \A t \in Ts, c \in Cs, r \in Rs, s \in Ss \ {"flat"}, o \in Os :
    LET f == [translation |-> t, center |-> c, rotation |-> r, scale |-> s, so |-> o]
    IN Mul(Forward(f), Inverse(f)) = Id /\ Mul(Inverse(f), Forward(f)) = Id
\* C12: rotation matrices are orthogonal
Orthogonal == \A r \in RotNames : Mul(Rot(r), IRot(r)) = Id
TypeInv == Orthogonal /\ Inverses
=============================================================================
