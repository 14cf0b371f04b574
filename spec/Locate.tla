------------------------------- MODULE Locate -------------------------------
(* Finding where the camera is from the features of the map that were matched. *)
(* A pose is an integer quaternion and an integer translation (Frames); a       *)
(* match is exact (seen where it is) or wrong (seen far from there).            *)
EXTENDS Frames, FiniteSets, Integers

\* the product of two quaternions
QMul(a, b) == << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
                 a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                 a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
                 a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>

\* ---- orientations as three numbers: q = <<w, x, y, z>> / K of unit length, projected from its pole
\* (numbers <<w, x, y>> / (K + z)); q and -q are the same orientation, so that a pole can be left
Away(q) == IF q[4] < 0 THEN << -q[1], -q[2], -q[3], -q[4]>> ELSE q
Three(q, K) == [n |-> <<q[1], q[2], q[3]>>, d |-> K + q[4]]
\* the quaternion of three numbers n / d, and its length
Four(c) == LET a == c.n[1]*c.n[1] + c.n[2]*c.n[2] + c.n[3]*c.n[3] IN
           [q |-> <<2 * c.n[1] * c.d, 2 * c.n[2] * c.d, 2 * c.n[3] * c.d, c.d * c.d - a>>, K |-> c.d * c.d + a]
\* how it changes with each of the numbers, times K^2
Slope(c) == LET K == Four(c).K d == c.d n == c.n
                e(i, j) == (IF i = j THEN 2 * d * d * K ELSE 0) - 4 * n[i] * n[j] * d * d IN
            << <<e(1, 1), e(1, 2), e(1, 3)>>, <<e(2, 1), e(2, 2), e(2, 3)>>, <<e(3, 1), e(3, 2), e(3, 3)>>,
               << -4 * n[1] * d * d * d, -4 * n[2] * d * d * d, -4 * n[3] * d * d * d>> >>

\* ---- the uncertainty of a match, as perturbed copies of it show it to a camera at the origin (focal lengths 480 and 360):
\* the spread, in thousandths, of each part of the distance to the match when axis a alone is uncertain, by u
\* (a point of the camera at <<x, y, z>>; the world axes are depth, left and up; a flat one straight ahead has the angles
\* "down" and "left", in thousandths; a facing plane at distance z has its normal, in thousandths, and its distance)
Mag(x) == IF x < 0 THEN -x ELSE x
Shaken(kind, a, c, u) ==
  LET z == c[3] IN
  CASE kind = "point" /\ a = 1 -> <<(((480 * Mag(c[1]) * u) \div z) * 1000) \div z, (((360 * Mag(c[2]) * u) \div z) * 1000) \div z>>
    [] kind = "point" /\ a = 2 -> <<(480 * u * 1000) \div z, 0>>
    [] kind = "point" /\ a = 3 -> <<0, (360 * u * 1000) \div z>>
    [] kind = "flat" /\ a = 1 -> <<0, 360 * u>>
    [] kind = "flat" /\ a = 2 -> <<480 * u, 0>>
    [] kind = "plane" /\ a = 1 -> <<0, 0, 0>>          \* along the normal: nothing changes
    [] kind = "plane" /\ a = 2 -> <<z * u, 0, 0>>
    [] kind = "plane" /\ a = 3 -> <<0, z * u, 0>>
    [] OTHER -> <<0, 0, 1000 * u>>

\* ---- matches: the part of a pose that each fixes, in fifteenths; a pose needs all of them
Part(kind) == IF kind = "plane" THEN 5 ELSE 3
RECURSIVE Sum(_, _)
Sum(ms, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Part(ms[i].kind) + Sum(ms, S \ {i})
All(ms) == DOMAIN ms
Exact(ms) == {i \in DOMAIN ms : ms[i].wrong = 0}
Wrong(ms) == DOMAIN ms \ Exact(ms)
Invalid(ms) == {i \in DOMAIN ms : ms[i].invalid = 1}
Refused(ms) == Sum(ms, All(ms)) < 15 \/ Invalid(ms) # {}
\* the exact matches are enough, and the wrong ones few
Sure(ms) == ~Refused(ms) /\ Sum(ms, Exact(ms)) >= 15 /\ 5 * Cardinality(Wrong(ms)) <= Cardinality(All(ms))
=============================================================================
