------------------------------ MODULE MotionMC ------------------------------
(* Moving steadily, the prediction error halves at each frame; standing still  *)
(* the velocity decays to nothing; a reset forgets everything.                 *)
EXTENDS Motion
VARIABLES s, k, rate, was
vars == <<s, k, rate, was>>
Rates == {-8, -1, 0, 3, 8}
Init == s = Fresh /\ k = 0 /\ rate \in Rates /\ was = 0
See == k < 9 /\ s' = After(s, <<s.p[1] + rate, 0, 0>>, s.a + rate) /\ k' = k + 1 /\ UNCHANGED <<rate, was>>
Turn == k = 4 /\ was = 0 /\ \E r \in Rates : rate' = r /\ was' = 1 /\ UNCHANGED <<s, k>>
Reset == k < 9 /\ s' = Fresh /\ k' = 0 /\ UNCHANGED rate /\ was' = 0
Next == See \/ Turn \/ Reset
Spec == Init /\ [][Next]_vars
AbsI(x) == IF x < 0 THEN -x ELSE x
\* after k frames at the same rate the velocity misses 1 / 2^(k-1) of it
Converges == was = 0 /\ k >= 1 => s.v[1] = Unit * rate - ((Unit * rate) \div (2 ^ (k - 1))) /\ s.w = s.v[1]
Bounded == AbsI(s.v[1]) <= 8 * Unit /\ AbsI(s.w) <= 8 * Unit
Forgets == ~s.set => s = Fresh
=============================================================================
