------------------------------- MODULE Matrix -------------------------------
(* Exact 4x4 matrices in fixed point (unit U), row vectors: p' = p * M .     *)
(* The VRML97 transform of translation, center, rotation, scale and scale     *)
(* orientation, from palettes of exactly representable components.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

U == 64

Ix(r, c) == 4 * (r - 1) + c
Mat(rows) == [k \in 1..16 |-> rows[((k - 1) \div 4) + 1][((k - 1) % 4) + 1]]
Id == Mat(<< <<U,0,0,0>>, <<0,U,0,0>>, <<0,0,U,0>>, <<0,0,0,U>> >>)

\* a * b, exact as long as the products are multiples of 1/U
Mul(a, b) == IF a = Id THEN b ELSE IF b = Id THEN a
    ELSE [k \in 1..16 |->
       LET r == ((k - 1) \div 4) + 1  c == ((k - 1) % 4) + 1
       IN (a[Ix(r,1)] * b[Ix(1,c)] + a[Ix(r,2)] * b[Ix(2,c)]
           + a[Ix(r,3)] * b[Ix(3,c)] + a[Ix(r,4)] * b[Ix(4,c)]) \div U]
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN Id ELSE IF Len(s) = 1 THEN s[1] ELSE Mul(s[1], Product(Tail(s)))

---------------------------------------------------------------------------
\* translations and centers, by label
Points == [zero |-> <<0,0,0>>, p |-> <<1,2,3>>, q |-> <<-2,0,1>>, x |-> <<3,0,0>>,
           cz |-> <<0,0,1>>, c |-> <<1,-1,2>>, y |-> <<0,2,0>>]
Trans(v) == Mat(<< <<U,0,0,0>>, <<0,U,0,0>>, <<0,0,U,0>>, <<v[1]*U, v[2]*U, v[3]*U, U>> >>)
Neg(v) == <<-v[1], -v[2], -v[3]>>

\* scale factors times 2, and times 1/2 for the inverse
Scales == [one |-> <<2,2,2>>, two |-> <<4,4,4>>, sx |-> <<4,2,2>>, mirror |-> <<2,2,-2>>,
           half |-> <<2,1,2>>, mixed |-> <<-2,4,1>>, flat |-> <<0,2,2>>, sz |-> <<2,2,4>>]
Diag(a, b, c) == Mat(<< <<a,0,0,0>>, <<0,b,0,0>>, <<0,0,c,0>>, <<0,0,0,U>> >>)
Scale(s) == Diag(s[1] * (U \div 2), s[2] * (U \div 2), s[3] * (U \div 2))
Inv1(n) == CASE n = 2 -> U [] n = 4 -> U \div 2 [] n = 1 -> 2 * U [] n = -2 -> -U [] n = -4 -> -(U \div 2)
IScale(s) == Diag(Inv1(s[1]), Inv1(s[2]), Inv1(s[3]))

\* rotations: the axis (not normalised); 4 (1-cos)/|axis|^2; 4 cos; 4 sin/|axis|
Rots == [none |-> [a |-> <<0,1,0>>, t |-> 0, c |-> 4, s |-> 0],
         qz |-> [a |-> <<0,0,1>>, t |-> 4, c |-> 0, s |-> 4],      \* 90 degrees
         qx |-> [a |-> <<1,0,0>>, t |-> 4, c |-> 0, s |-> 4],
         mx |-> [a |-> <<1,0,0>>, t |-> 4, c |-> 0, s |-> -4],     \* -90 degrees
         z2 |-> [a |-> <<0,0,2>>, t |-> 1, c |-> 0, s |-> 2],      \* an axis which is not normalised
         nz |-> [a |-> <<0,0,-1>>, t |-> 4, c |-> 0, s |-> 4],
         d3 |-> [a |-> <<1,1,1>>, t |-> 2, c |-> -2, s |-> 2],     \* 120 degrees
         e3 |-> [a |-> <<1,1,1>>, t |-> 2, c |-> -2, s |-> -2],    \* 240 degrees
         f3 |-> [a |-> <<1,-1,1>>, t |-> 2, c |-> -2, s |-> 2],
         h2 |-> [a |-> <<1,1,0>>, t |-> 4, c |-> -4, s |-> 0],     \* 180 degrees
         h3 |-> [a |-> <<0,1,-1>>, t |-> 4, c |-> -4, s |-> 0],
         full |-> [a |-> <<1,0,0>>, t |-> 0, c |-> 4, s |-> 0],    \* 360 degrees
         zero |-> [a |-> <<0,0,0>>, t |-> 4, c |-> 0, s |-> 4]]    \* the y axis instead
RotNames == DOMAIN Rots
RotOf(l) == IF l = "zero" THEN [Rots["zero"] EXCEPT !.a = <<0,1,0>>] ELSE Rots[l]
RotMat(r, sn) ==
    LET x == r.a[1] y == r.a[2] z == r.a[3] t == r.t c == r.c s == sn * r.s q == U \div 4
    IN Mat(<< << (t*x*x + c) * q, (t*x*y + s*z) * q, (t*x*z - s*y) * q, 0>>,
              << (t*x*y - s*z) * q, (t*y*y + c) * q, (t*y*z + s*x) * q, 0>>,
              << (t*x*z + s*y) * q, (t*y*z - s*x) * q, (t*z*z + c) * q, 0>>,
              << 0, 0, 0, U>> >>)
Rot(l) == RotMat(RotOf(l), 1)
IRot(l) == RotMat(RotOf(l), -1)

---------------------------------------------------------------------------
\* the local transform: a record of labels
Forward(f) ==
    LET c == Points[f.center] s == f.scale
    IN Product(<<Trans(Neg(c)), IRot(f.so), Scale(Scales[s]), Rot(f.so), Rot(f.rotation),
                 Trans(c), Trans(Points[f.translation])>>)
Inverse(f) ==
    LET c == Points[f.center] s == f.scale
    IN Product(<<Trans(Neg(Points[f.translation])), Trans(Neg(c)), IRot(f.rotation), IRot(f.so),
                 IScale(Scales[s]), Rot(f.so), Trans(c)>>)
Show(m) == [k \in 1..16 |-> ToString(m[k])]
=============================================================================
