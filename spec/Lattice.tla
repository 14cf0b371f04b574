------------------------------ MODULE Lattice -------------------------------
(* Exact geometry: cameras looking along the axes of an integer lattice.       *)
(* A pose is [R, t]: R one of the 24 rotations of the cube, t a translation.   *)
(* Camera axes are x right, y down, z forward; world axes x forward, y left,   *)
(* z up.  Image positions are in half pixels: focal 480 pixels, centre         *)
(* (320, 240), so that a point (X, Y, Z) is seen at 960 X / Z + 640.           *)
EXTENDS Integers, Sequences

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
Tr(M) == <<Col(M, 1), Col(M, 2), Col(M, 3)>>
Mul(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
MM(M, N) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(M[i], Col(N, j))]]

I3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
RotZ == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
RotX == << <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>
RotY == << <<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>> >>
Roll(n) == CASE n = 0 -> I3 [] n = 1 -> RotZ [] n = 2 -> MM(RotZ, RotZ) [] n = 3 -> Tr(RotZ)
Face(n) == CASE n = 0 -> I3 [] n = 1 -> RotX [] n = 2 -> MM(RotX, RotX) [] n = 3 -> Tr(RotX) [] n = 4 -> RotY [] n = 5 -> Tr(RotY)
\* the 24 rotations; the first four turn around the line of sight
Rot(n) == MM(Face(n \div 4), Roll(n % 4))

ToWorld(P, c) == LET q == Add(Mul(P.R, c), P.t) IN <<q[3], -q[1], -q[2]>>
ToCam(P, w) == Mul(Tr(P.R), Sub(<< -w[2], -w[3], w[1]>>, P.t))
\* P followed by the displacement D given in the axes of P
After(P, D) == [R |-> MM(P.R, D.R), t |-> Add(Mul(P.R, D.t), P.t)]
Inside(D, c) == Mul(Tr(D.R), Sub(c, D.t))

Width == 1280
Height == 960
\* seen position, when it falls on a half pixel
OnHalf(c) == c[3] > 0 /\ (960 * c[1]) % c[3] = 0 /\ (960 * c[2]) % c[3] = 0
Seen(c) == [x |-> (960 * c[1]) \div c[3] + 640, y |-> (960 * c[2]) \div c[3] + 480]
\* exact comparisons without division
Within(X, Z, half, size) == 960 * X + half * Z >= 0 /\ 960 * X + half * Z <= size * Z
Strictly(X, Z, half, size) == 960 * X + half * Z > 0 /\ 960 * X + half * Z < size * Z
InImage(c) == c[3] > 0 /\ Within(c[1], c[3], 640, Width) /\ Within(c[2], c[3], 480, Height)
WellInImage(c) == c[3] > 0 /\ Strictly(c[1], c[3], 640, Width) /\ Strictly(c[2], c[3], 480, Height)
=============================================================================
