------------------------------ MODULE LocateMC ------------------------------
(* The three numbers of an orientation give it back, whatever it is; a product  *)
(* of quaternions composes their rotations; enough exact matches cannot be       *)
(* outvoted by the wrong ones.                                                   *)
EXTENDS Locate
CONSTANT Most
VARIABLES q, K, a, e, w
Len3 == {<<x, y, z, v, l>> \in (-Most..Most) \X (-Most..Most) \X (-Most..Most) \X (-Most..Most) \X (1..Most) : x*x + y*y + z*z + v*v = l*l}
Init == \E u \in Len3 : /\ q = <<u[1], u[2], u[3], u[4]>> /\ K = u[5]
                        /\ a \in {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<2, 0, 1, 0>>, <<1, 0, 0, -1>>}
                        /\ e \in 5..8 /\ w \in 0..2
Next == UNCHANGED <<q, K, a, e, w>>
Spec == Init /\ [][Next]_<<q, K, a, e, w>>
GivesBack == LET s == Away(q) f == Four(Three(s, K)) IN
             /\ Three(s, K).d > 0
             /\ \A i \in 1..4 : f.q[i] * K = s[i] * f.K
             /\ M(s) = M(q)
\* the length of the quaternion does not change along the slopes
Tangent == LET c == Three(Away(q), K) f == Four(c) s == Slope(c) IN
           \A j \in 1..3 : f.q[1] * s[1][j] + f.q[2] * s[2][j] + f.q[3] * s[3][j] + f.q[4] * s[4][j] = 0
Composes == M(QMul(q, a)) = MM(M(q), M(a))
Ms == [i \in 1..(e + w) |-> [kind |-> "point", wrong |-> IF i > e THEN 1 ELSE 0, invalid |-> 0]]
Decided == Sure(Ms) => Sum(Ms, Exact(Ms)) > Sum(Ms, Wrong(Ms)) /\ 5 * e >= 4 * (e + w)
=============================================================================
