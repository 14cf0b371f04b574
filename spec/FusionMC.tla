------------------------------ MODULE FusionMC ------------------------------
(* Fusion keeps uncertainties symmetric and positive, never increases them,    *)
(* puts the estimate between prediction and measurement, and two measurements  *)
(* of a still feature may come in any order.                                   *)
EXTENDS Fusion
VARIABLES l, r, z
vars == <<l, r, z>>
Init == l \in [1..3 -> 0..2] /\ r \in [1..3 -> 0..2] /\ z \in [1..2 -> 0..3]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos(d) == LET L == << <<1 + d[1], 0>>, <<d[2] - 1, 1 + d[3]>> >> IN Prod(L, Trn(L))
P == Pos(l)
R == Pos(r)
Positive2(A) == A[1][1] >= 0 /\ A[2][2] >= 0 /\ Determinant(A) >= 0
H1 == << <<1, 1>> >>
F == << <<1, 1>>, <<0, 1>> >>
x == <<5, -3>>
A1 == Step(F, Eye(2), Eye(2), x, P, z, R)
B1 == Step(F, Eye(2), H1, x, P, <<z[1]>>, << <<1 + r[1]>> >>)
Sound(T, Pm) == T.D > 0 /\ T.P = Trn(T.P) /\ Positive2(T.P) /\ Positive2(MMinus(MTimes(T.D, Pm), T.P))
Sane == Sound(A1, PredictedCov(F, P, Eye(2))) /\ Sound(B1, PredictedCov(F, P, Eye(2)))
\* in the information form: inverse of the new uncertainty = inverse of the predicted one + inverse of the measured one
Information == LET Pm == PredictedCov(F, P, Eye(2)) IN
   \* P' S = R Pm-like identity: P' = Pm S^-1 R
   A1.P = Prod(Prod(Pm, Adjugate(Innovation(F, P, Eye(2), Eye(2), R))), R)
\* one axis: still feature, p then measurements (u, a) and (v, b), in both orders (rational numbers cross multiplied)
Order == LET p == 1 + l[1] a == 1 + r[1] b == 1 + r[2] u == z[1] v == z[2]
             one(p1, a1, u1) == [n |-> 7 * a1 + u1 * p1, d |-> p1 + a1, c |-> p1 * a1]        \* state n/d, variance c/d, from 7
             two(f, a2, v2) == [n |-> f.n * a2 + v2 * f.c, d |-> f.c + a2 * f.d, c |-> f.c * a2]
             s == two(one(p, a, u), b, v) t == two(one(p, b, v), a, u)
         IN s.n * t.d = t.n * s.d /\ s.c * t.d = t.c * s.d
            /\ LET e == Still(0, <<7>>, << <<p>> >>, <<u>>, << <<a>> >>) IN e.x[1] = one(p, a, u).n /\ e.D = p + a /\ e.P[1][1] = p * a
Inverse == \A m \in {<<3, 4, 12>>, <<4, -3, 0>>, <<-3, 0, 4>>} : LET h == IF m[1] = -3 THEN 3 ELSE 5 K == IF m[3] = 12 THEN 13 ELSE 5 IN
   \* there and back: diagonal, equal to the product of the units (K K, K K, h h times)
   LET J == [i \in 1..3 |-> [j \in 1..3 |-> ToPoint(m, h)[i][3 + j]]] G == Prod(FromPoint(m, h), J) IN
   G = << <<K * K, 0, 0>>, <<0, h * h * K * K, 0>>, <<0, 0, h * h>> >>
=============================================================================
