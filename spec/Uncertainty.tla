----------------------------- MODULE Uncertainty ----------------------------
(* First order propagation of uncertainties through the changes of frame, in   *)
(* exact arithmetic.  Matrices are sequences of rows.                          *)
EXTENDS Frames

Sym(c) == << <<c[1], c[2], c[3]>>, <<c[2], c[4], c[5]>>, <<c[3], c[5], c[6]>> >>
Plus(a, b) == TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> a[i][j] + b[i][j]])])
Times(k, a) == TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> k * a[i][j]])])
\* J C transpose(J)
Through(J, C) == MM(MM(J, C), Tr(J))
\* axes change as a matrix
AxesM == << <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>> >>
RotW(q) == MM(AxesM, M(q))                                   \* camera to world, scale N

\* ---- of points: rotated, plus the uncertainty of the camera position (scale N*N)
WorldCov(q, C, P) == Plus(Through(RotW(q), C), Times(Norm(q) * Norm(q), P))
CameraCov(q, C, P) == Plus(Through(Tr(RotW(q)), C), Times(Norm(q) * Norm(q), P))
\* ---- camera point (1440 k a, 1440 k b, 1440 k) to pixel and depth (scale 144 k k)
PixelJ(a, b, k) == << <<4, 0, -4 * a>>, <<0, 3, -3 * b>>, <<0, 0, 12 * k>> >>
PixelCov(a, b, k, C) == Through(PixelJ(a, b, k), C)
\* ---- pixel (Cx + 40 i, Cy + 30 j) at depth 120 k to camera point (scale 144)
PointJ(i, j, k) == << <<3 * k, 0, i>>, <<0, 4 * k, j>>, <<0, 0, 12>> >>
PointCov(i, j, k, C) == Through(PointJ(i, j, k), C)

\* ---- validity: symmetric and positive
Minor2(A, i, j) == A[i][i] * A[j][j] - A[i][j] * A[j][i]
Det(A) == Dot(A[1], Cross(A[2], A[3]))
Symmetric(A) == A = Tr(A)
Positive(A) == A[1][1] > 0 /\ Minor2(A, 1, 2) > 0 /\ Det(A) > 0
Negative(A) == \/ \E i \in 1..3 : A[i][i] < 0
               \/ \E i \in 1..3 : \E j \in 1..3 : i < j /\ Minor2(A, i, j) < 0
               \/ Det(A) < 0

\* ---- planes: normal m / K.  Orientation part of the uncertainty of the plane whose foot point has the
\* uncertainty C: ((K K I - m mT) C (K K I - m mT)) / (K^4 d^2), to which 1/100 is added on the diagonal
Outer(m) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> m[i] * m[j]])])
Id(k) == << <<k, 0, 0>>, <<0, k, 0>>, <<0, 0, k>> >>
Flat(m, K) == Plus(Id(K * K), Times(-1, Outer(m)))
NormalCov(m, K, C) == Through(Flat(m, K), C)                  \* scale K^4 d^2, without the added 1/100
\* foot point d n of a plane with the uncertainty C (3x3 of the normal), c (with d), v (of d): scale K K, without the added 1/100
FootCov(m, K, d, C, c, v) ==
  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> K * K * d * d * C[i][j] + K * d * (c[i] * m[j] + m[i] * c[j]) + m[i] * m[j] * v])])
\* ---- depth: max(-0.53 + 0.74 z + 2.73 z^2, 0.5) millimetres at z metres, here at z = k / 50, times 250000
DepthModel(k) == LET v == 273 * (k * k) + 3700 * k - 132500 IN IF v > 125000 THEN v ELSE 125000
=============================================================================
