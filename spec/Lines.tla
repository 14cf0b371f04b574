-------------------------------- MODULE Lines -------------------------------
(* Sight lines and segments: points known by direction and uncertain distance, *)
(* distances between lines, and clipping a segment to the image.               *)
EXTENDS Frames

\* ---- a point at distance K s from o in the direction m / K, whose inverse distance has the deviation j / n of itself:
\* the interval of three deviations ends at the distances K s n / (n - 3 j) and K s n / (n + 3 j)
Deviations == 10
FarAt(o, m, s, j) == Add(Scale(Deviations - 3 * j, o), Scale(s * Deviations, m))    \* scale n - 3 j
NearAt(o, m, s, j) == Add(Scale(Deviations + 3 * j, o), Scale(s * Deviations, m))   \* scale n + 3 j
\* camera coordinates of a world point given with a scale k (scale N k)
CameraScaled(q, t, w, k) == Mul(Tr(M(q)), Sub(AxesBack(w), Scale(k, t)))

\* ---- vector from the line (o2, m2) to the line (o1, m1), perpendicular to both
Between(o1, m1, o2, m2) == LET x == Cross(m1, m2) IN Scale(Dot(Sub(o1, o2), x), x)   \* scale x.x
Parallel(m1, m2) == Cross(m1, m2) = <<0, 0, 0>>

\* ---- closest point to p of the line through a and b (2 or 3 coordinates)
DotN(a, b) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + S(i - 1) IN S(Len(a))
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
OnLine(a, b, p) == LET e == Minus(b, a) l == DotN(e, e) k == DotN(Minus(p, a), e) IN [i \in DOMAIN a |-> l * a[i] + k * e[i]]  \* scale l

\* ---- clipping to the image, one pixel inside its borders
LoX == 1
HiX == Wd - 1
LoY == 1
HiY == Ht - 1
\* parameters along a + (n / d) e (d > 0) as pairs; entering and leaving each of the four borders
Frac(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
Less(f, g) == f[1] * g[2] < g[1] * f[2]
MaxF(S) == CHOOSE f \in S : \A g \in S : ~Less(f, g)
MinF(S) == CHOOSE f \in S : \A g \in S : ~Less(g, f)
Enter(a, e, lo, hi) == IF e > 0 THEN {Frac(lo - a, e)} ELSE IF e < 0 THEN {Frac(hi - a, e)} ELSE {}
Leave(a, e, lo, hi) == IF e > 0 THEN {Frac(hi - a, e)} ELSE IF e < 0 THEN {Frac(lo - a, e)} ELSE {}
First(a, e) == MaxF({<<0, 1>>} \cup Enter(a[1], e[1], LoX, HiX) \cup Enter(a[2], e[2], LoY, HiY))
Last(a, e) == MinF({<<1, 1>>} \cup Leave(a[1], e[1], LoX, HiX) \cup Leave(a[2], e[2], LoY, HiY))
Still(a, e) == (e[1] = 0 => a[1] > LoX /\ a[1] < HiX) /\ (e[2] = 0 => a[2] > LoY /\ a[2] < HiY)
Away(a, e) == (e[1] = 0 /\ (a[1] < LoX \/ a[1] > HiX)) \/ (e[2] = 0 /\ (a[2] < LoY \/ a[2] > HiY))
\* part of the segment lies inside / none of it does, not even touching
Crosses(a, b) == LET e == Minus(b, a) IN Still(a, e) /\ Less(First(a, e), Last(a, e))
Misses(a, b) == LET e == Minus(b, a) IN Away(a, e) \/ Less(Last(a, e), First(a, e))
ClipScale(a, b) == LET e == Minus(b, a) IN (IF e[1] = 0 THEN 1 ELSE e[1]) * (IF e[2] = 0 THEN 1 ELSE e[2])
At(a, e, f, s) == <<s * a[1] + ((s * f[1]) \div f[2]) * e[1], s * a[2] + ((s * f[1]) \div f[2]) * e[2]>>
Clipped(a, b) == LET e == Minus(b, a) s == ClipScale(a, b) IN {At(a, e, First(a, e), s), At(a, e, Last(a, e), s)}
=============================================================================
