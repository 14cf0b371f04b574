------------------------------- MODULE Fusion -------------------------------
(* The fusion of an estimate with a measurement, in exact arithmetic.          *)
(* Matrices are sequences of rows, of any size; results are stated multiplied  *)
(* by the determinant of the innovation, so that all of them are integers.     *)
EXTENDS Integers, Sequences, TLC

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Prod(A, B) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(B) |-> Sum([k \in 1..Cols(A) |-> A[i][k] * B[k][j]], Cols(A))])])
App(A, v) == TLCEval([i \in 1..Rows(A) |-> Sum([k \in 1..Cols(A) |-> A[i][k] * v[k]], Cols(A))])
Trn(A) == TLCEval([j \in 1..Cols(A) |-> TLCEval([i \in 1..Rows(A) |-> A[i][j]])])
MPlus(A, B) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> A[i][j] + B[i][j]])])
MTimes(s, A) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> s * A[i][j]])])
MMinus(A, B) == MPlus(A, MTimes(-1, B))
VPlus(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VTimes(s, a) == TLCEval([i \in 1..Len(a) |-> s * a[i]])
Eye(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE 0])])
Around(J, C) == Prod(Prod(J, C), Trn(J))
\* determinant and adjugate up to size 3
Drop(A, i, j) == LET n == Rows(A) r(k, x) == IF k < x THEN k ELSE k + 1 IN TLCEval([a \in 1..(n - 1) |-> TLCEval([b \in 1..(n - 1) |-> A[r(a, i)][r(b, j)]])])
RECURSIVE Determinant(_)
Determinant(A) == IF Rows(A) = 1 THEN A[1][1]
                  ELSE Sum([j \in 1..Rows(A) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Determinant(Drop(A, 1, j))], Rows(A))
Adjugate(A) == IF Rows(A) = 1 THEN << <<1>> >>
               ELSE TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Rows(A) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Determinant(Drop(A, j, i))])])

\* ---- one step: state x with uncertainty P, dynamics F with noise Q, measurement z = H x with uncertainty R
Predicted(F, x) == App(F, x)
PredictedCov(F, P, Q) == MPlus(Around(F, P), Q)
Innovation(F, P, Q, H, R) == MPlus(Around(H, PredictedCov(F, P, Q)), R)
Step(F, Q, H, x, P, z, R) ==
  LET xm == Predicted(F, x)
      Pm == PredictedCov(F, P, Q)
      S == Innovation(F, P, Q, H, R)
      D == Determinant(S)
      G == Prod(Prod(Pm, Trn(H)), Adjugate(S))                      \* gain, scale D
      y == VPlus(z, VTimes(-1, App(H, xm)))
  IN [D |-> D, x |-> VPlus(VTimes(D, xm), App(G, y)), P |-> MMinus(MTimes(D, Pm), Prod(Prod(G, H), Pm))]
\* a static feature measured directly
Still(q, x, P, z, R) == LET n == Len(x) IN Step(Eye(n), MTimes(q, Eye(n)), Eye(n), x, P, z, R)

\* ---- points without depth: direction m = (a, b, c) / K, a a + b b = h h, distance K s.
\* Variables (origin, inverse distance, polar angle, azimuth) in the units (1, 1 / (K s s), h / s, 1 / s):
\* change of the position with them
ToPoint(m, h) == [i \in 1..3 |-> (IF i = 1 THEN <<1, 0, 0>> ELSE IF i = 2 THEN <<0, 1, 0>> ELSE <<0, 0, 1>>)
                    \o << -m[i], (IF i = 3 THEN -h * h ELSE m[3] * m[i]), (CASE i = 1 -> -m[2] [] i = 2 -> m[1] [] i = 3 -> 0) >>]
\* change of (inverse distance, polar angle, azimuth) with the position, in the units (1 / (K^3 s s), 1 / (h s K K), 1 / (h h s))
FromPoint(m, h) == << <<-m[1], -m[2], -m[3]>>, <<m[1] * m[3], m[2] * m[3], -h * h>>, <<-m[2], m[1], 0>> >>
\* how far the depth of the point is from being usable: 4 * deviation / distance * cosine, here times the square
\* of the distance to the camera, for the deviation e in units of 1 / (K s s) of a point at w from the camera
Linearity(m, e, w) == LET d == m[1] * w[1] + m[2] * w[2] + m[3] * w[3] IN 4 * e * (IF d < 0 THEN -d ELSE d)
=============================================================================
