------------------------------- MODULE Motion -------------------------------
(* The decaying velocity model that predicts the next pose.  The orientation   *)
(* turns about one fixed axis, by whole degrees; velocities are multiplied by  *)
(* Unit, exact for up to ten predictions in a row.                             *)
EXTENDS Integers, Sequences
Unit == 1024
Fresh == [set |-> FALSE, p |-> <<0, 0, 0>>, a |-> 0, v |-> <<0, 0, 0>>, w |-> 0]
At(p, a) == [set |-> TRUE, p |-> p, a |-> a, v |-> <<0, 0, 0>>, w |-> 0]
Half(old, step) == (old + Unit * step) \div 2
\* the model after seeing the pose (p, a)
After(s, p, a) ==
  IF ~s.set THEN At(p, a)
  ELSE [set |-> TRUE, p |-> p, a |-> a,
        v |-> <<Half(s.v[1], p[1] - s.p[1]), Half(s.v[2], p[2] - s.p[2]), Half(s.v[3], p[3] - s.p[3])>>,
        w |-> Half(s.w, a - s.a)]
\* what it then predicts: the pose moved by the velocities
NextPosition(s) == <<Unit * s.p[1] + s.v[1], Unit * s.p[2] + s.v[2], Unit * s.p[3] + s.v[3]>>
NextTurn(s) == s.w                       \* from the orientation just seen
\* what is added to the uncertainty, in tenths of thousandths, on request and only when a velocity is known
Added(s, asked) == IF s.set /\ asked THEN <<1000000, 1000000, 1000000, 100, 100, 100>> ELSE <<0, 0, 0, 0, 0, 0>>
=============================================================================
