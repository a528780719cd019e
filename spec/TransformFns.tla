---------------------------- MODULE TransformFns ----------------------------
(* The matrix functions (vrml/vrml97/transformmatrix.py, _transformmatrix.py,*)
(* _transformmatrix_accel.py, accelerate/src/tmatrixaccel.pyx).  Property   *)
(* C12.  The functions have no state.                                       *)
EXTENDS Matrix

Parents == [none |-> Id,
            pa |-> Mul(Rot("qz"), Trans(<<1,0,2>>)),
            pb |-> Mul(Scale(Scales["sx"]), Mul(Rot("d3"), Trans(<<0,-1,3>>)))]

LocalOf(op) == [translation |-> op.t, center |-> op.c, rotation |-> op.r, scale |-> op.s, so |-> op.o]

Frac(a, b) == (a * U) \div b    \* only used where b divides
Result(op) ==
    CASE op.fn \in {"transformMatrix", "transformMatrices0"} -> Mul(Forward(LocalOf(op)), Parents[op.p])
      [] op.fn \in {"itransformMatrix", "transformMatrices1"} -> Mul(Inverse(LocalOf(op)), Parents[op.p])
      [] op.fn = "localMatrices0" -> Forward(LocalOf(op))
      [] op.fn = "localMatrices1" -> Inverse(LocalOf(op))
      [] op.fn = "trans0" -> Trans(Points[op.t])
      [] op.fn = "trans1" -> Trans(Neg(Points[op.t]))
      [] op.fn = "rot0" -> Rot(op.r)
      [] op.fn = "rot1" -> IRot(op.r)
      [] op.fn = "scale0" -> Scale(Scales[op.s])
      [] op.fn = "scale1" -> IScale(Scales[op.s])
      \* the row vector (0,0,0,1) moved: the last row of the product
      [] op.fn = "center" -> LET m == Mul(Trans(Points[op.c]), Mul(Trans(Points[op.t]), Parents[op.p]))
                             IN m
      [] op.fn = "perspective0" ->     \* a field of view of 90 degrees
           Mat(<< <<Frac(op.b, op.a), 0, 0, 0>>, <<0, U, 0, 0>>,
                  <<0, 0, Frac(op.far + op.near, op.near - op.far), -U>>,
                  <<0, 0, Frac(2 * op.far * op.near, op.near - op.far), 0>> >>)
      [] op.fn = "perspective1" ->
           Mat(<< <<Frac(op.a, op.b), 0, 0, 0>>, <<0, U, 0, 0>>,
                  <<0, 0, 0, Frac(op.near - op.far, 2 * op.far * op.near)>>,
                  <<0, 0, -U, Frac(op.far + op.near, 2 * op.far * op.near)>> >>)
      [] op.fn = "ortho" ->
           LET w == op.x2 - op.x1 h == op.y2 - op.y1 d == op.z2 - op.z1
           IN Mat(<< <<Frac(2, w), 0, 0, -Frac(op.x2 + op.x1, w)>>,
                     <<0, Frac(2, h), 0, -Frac(op.y2 + op.y1, h)>>,
                     <<0, 0, -Frac(2, d), -Frac(op.z2 + op.z1, d)>>, <<0, 0, 0, U>> >>)

\* Arbitrary components, measured: the operation carries what the function gave,
\* in units of 1/10000 (rotations: of 1/(10000 n^2), about an axis of length n
\* with the angle's cosine c and sine s in 1/10000)
Abs(x) == IF x < 0 THEN -x ELSE x
K == 10000
Near(op, exp, tol) == \A i \in 1..16 : Abs(op.m[i] - exp[i]) <= tol
GenRot(op, sn) ==
    LET x == op.x y == op.y z == op.z n == op.n t == K - op.c c == op.c * n * n s == sn * op.s * n
    IN Mat(<< << t*x*x + c, t*x*y + s*z, t*x*z - s*y, 0>>, << t*x*y - s*z, t*y*y + c, t*y*z + s*x, 0>>,
              << t*x*z + s*y, t*y*z - s*x, t*z*z + c, 0>>, <<0, 0, 0, K*n*n>> >>)
GenTrans(x, y, z) == Mat(<< <<K,0,0,0>>, <<0,K,0,0>>, <<0,0,K,0>>, <<x, y, z, K>> >>)
Measured(op) ==
    CASE op.fn = "grot0" -> Near(op, GenRot(op, 1), 3 * op.n * op.n)
      [] op.fn = "grot1" -> Near(op, GenRot(op, -1), 3 * op.n * op.n)
      [] op.fn = "gtrans0" -> Near(op, GenTrans(op.x, op.y, op.z), 2)
      [] op.fn = "gtrans1" -> Near(op, GenTrans(-op.x, -op.y, -op.z), 2)
      [] op.fn = "gscale0" -> Near(op, Mat(<< <<op.x,0,0,0>>, <<0,op.y,0,0>>, <<0,0,op.z,0>>, <<0,0,0,K>> >>), 2)
      [] op.fn = "gscale1" ->
           /\ \A q \in {<<1, op.x>>, <<6, op.y>>, <<11, op.z>>} : Abs(op.m[q[1]] * q[2] - K * K) <= Abs(q[2]) + K
           /\ \A i \in 1..15 : i \in {1, 6, 11} \/ op.m[i] = 0
           /\ op.m[16] = K
IsMeasured(op) == op.fn \in {"grot0", "grot1", "gtrans0", "gtrans1", "gscale0", "gscale1"}

Shown(op) == IF op.fn = "center" THEN SubSeq(Show(Result(op)), 13, 16) ELSE Show(Result(op))
Step(st, op) == [st |-> st, obs |-> [m |-> IF IsMeasured(op)
                                           THEN IF Measured(op) THEN <<"as it must be">> ELSE <<"something else">>
                                           ELSE Shown(op)]]
Step0(params) == 0
Enabled(st, op) == TRUE
TypeOK(st) == TRUE
=============================================================================
