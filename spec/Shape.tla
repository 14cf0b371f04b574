------------------------------- MODULE Shape -------------------------------
(* Boundaries of planes.  A shape is a stack of columns of unit cells, given   *)
(* by the bottom and the top of each; it lies in a plane of space spanned by   *)
(* the first two axes of a frame (rotation M(q)/N, centre c), with cells of    *)
(* side s.  All overlaps are counts of cells.                                  *)
EXTENDS Frames, FiniteSets, SequencesExt
\* ---- shapes
Cells(a) == UNION {{<<i - 1, j>> : j \in a[i][1]..(a[i][2] - 1)} : i \in DOMAIN a}
Joined(a) == \A i \in DOMAIN a : a[i][1] < a[i][2] /\ (i < Len(a) => a[i][1] < a[i + 1][2] /\ a[i + 1][1] < a[i][2])
RECURSIVE NoRepeat(_)
NoRepeat(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN NoRepeat(Tail(s)) ELSE <<s[1]>> \o NoRepeat(Tail(s))
Outline(a) == NoRepeat(
  FlattenSeq([i \in DOMAIN a |-> <<<<i - 1, a[i][1]>>, <<i, a[i][1]>>>>]) \o
  FlattenSeq([k \in DOMAIN a |-> LET i == Len(a) + 1 - k IN <<<<i, a[i][2]>>, <<i - 1, a[i][2]>>>>]) \o <<<<0, a[1][1]>>>>)
\* ---- the shape of another one, whose frame is turned by k quarters in the plane, seen from behind or not, and moved by o
Seen(k, flip, p) == LET f == <<p[1], IF flip THEN -p[2] ELSE p[2]>> IN
  CASE k = 0 -> f [] k = 1 -> << -f[2], f[1]>> [] k = 2 -> << -f[1], -f[2]>> [] OTHER -> <<f[2], -f[1]>>
Moved(k, flip, o, p) == LET m == Seen(k, flip, p) IN <<m[1] + o[1], m[2] + o[2]>>
\* by the centre of the cell, doubled
MovedCell(k, flip, o, p) == LET m == Seen(k, flip, <<2 * p[1] + 1, 2 * p[2] + 1>>) IN <<((m[1] - 1) \div 2) + o[1], ((m[2] - 1) \div 2) + o[2]>>
\* ---- parts of a set of cells
Touch(p) == {<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>}
RECURSIVE Spread(_, _)
Spread(S, T) == LET n == T \cup {p \in S : Touch(p) \cap T # {}} IN IF n = T THEN T ELSE Spread(S, n)
RECURSIVE Parts(_)
Parts(S) == IF S = {} THEN {} ELSE LET t == Spread(S, {CHOOSE p \in S : TRUE}) IN {t} \cup Parts(S \ t)
Biggest(S) == LET P == Parts(S) IN IF P = {} THEN 0 ELSE CHOOSE n \in {Cardinality(t) : t \in P} : \A t \in P : Cardinality(t) <= n
\* nothing of the outline of S can be simplified away: points of the grid are further from its chords than the tolerance
Box2(S) == LET X == {p[1] : p \in S} Y == {p[2] : p \in S}
               top(T) == CHOOSE a \in T : \A b \in T : b <= a
               low(T) == CHOOSE a \in T : \A b \in T : b >= a
           IN (top(X) - low(X) + 1) * (top(X) - low(X) + 1) + (top(Y) - low(Y) + 1) * (top(Y) - low(Y) + 1)
Kept(S, s) == LET d == Box2(S) n == Cardinality(S) IN s * s > 100 * d /\ n * n * d < 10 * (1000000000 \div (s * s))
\* no two cells touch by a corner only
Clean(S) == \A p \in S : \A d \in {-1, 1} : <<p[1] + 1, p[2] + d>> \in S => (<<p[1] + 1, p[2]>> \in S \/ <<p[1], p[2] + d>> \in S)
\* ---- places in space: the point (x, y) of the plane of frame q, c (scale N)
Place(q, c, s, p) == Add(Scale(Norm(q), c), Scale(s, Add(Scale(p[1], Col(M(q), 1)), Scale(p[2], Col(M(q), 2)))))
\* the nearest point of the plane of frame Q, C to the point P (scale n): scale n Norm(Q)^2
Drop(Q, C, P, n) ==
  LET N == Norm(Q) d == Sub(P, Scale(n, C)) e == Dot(d, Col(M(Q), 3)) IN
  Sub(Scale(N * N, P), Scale(e, Col(M(Q), 3)))
\* N N' times the cosine between the planes
Facing(q, Q) == LET d == Dot(Col(M(q), 3), Col(M(Q), 3)) IN IF d < 0 THEN -d ELSE d
\* ---- a rectangle with the middle of a side pushed out (or in) by e: simplified away when it is less than the tolerance, which grows with the area
BumpArea(w, h, e) == w * h + e * (w \div 2)
BumpGoes(w, h, e) == LET t == 100000 * (IF e < 0 THEN -e ELSE e) IN t < BumpArea(w, h, e) \/ t < 1000000
BumpStays(w, h, e) == LET t == 100000 * (IF e < 0 THEN -e ELSE e) IN t > BumpArea(w, h, e) /\ t > 1000000
\* ---- convex hulls of points of the plane, as a ring (either way around)
Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
IsHull(ring, pts) ==
  LET n == Len(ring) - 1 IN
  /\ n >= 3 /\ ring[1] = ring[n + 1]
  /\ \A i \in 1..n : ring[i] \in pts
  /\ \E sg \in {-1, 1} : /\ \A i \in 1..n : \A p \in pts : sg * Turn(ring[i], ring[i + 1], p) >= 0
                         /\ \A i \in 1..n : ring[i] # ring[i + 1]
=============================================================================
