---------------------------- MODULE UncertaintyMC ---------------------------
(* Propagation keeps uncertainties symmetric and positive, rotations keep the  *)
(* total uncertainty, and the classification of validity is a dichotomy on     *)
(* regular matrices.                                                           *)
EXTENDS Uncertainty
VARIABLES q, d
vars == <<q, d>>
Init == q \in [1..4 -> 0..2] /\ d \in [1..4 -> 0..2]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
qq == [i \in 1..4 |-> q[i] - 1]
N == Norm(qq)
\* a positive matrix: L transpose(L)
L == << <<1, 0, 0>>, <<2 * d[1] - 1, 1 + d[4], 0>>, <<d[2], -d[3], 1 + 2 * d[4]>> >>
C == MM(L, Tr(L))
Trace3(A) == A[1][1] + A[2][2] + A[3][3]
Built == Symmetric(C) /\ Positive(C) /\ ~Negative(C)
Rotated == N > 0 => LET W == WorldCov(qq, C, Id(0)) IN Symmetric(W) /\ Positive(W) /\ Trace3(W) = N * N * Trace3(C)
There == N > 0 => Through(Tr(RotW(qq)), WorldCov(qq, C, Id(0))) = Times(N * N * N * N, C)
Pixels == LET W == PixelCov(2, -1, 1, C) IN Symmetric(W) /\ Positive(W)
\* a plane normal only varies across itself
Across == \A m \in {<<1, 2, 2>>, <<0, 0, 3>>, <<-2, 1, 2>>} : LET W == NormalCov(m, 3, C) IN Symmetric(W) /\ Mul(W, m) = <<0, 0, 0>> /\ ~Negative(W)
Flipped == LET B == [C EXCEPT ![2][2] = -1] IN Negative(B) /\ ~Positive(B)
=============================================================================
