---------------------------- MODULE FeatureMatch ----------------------------
(* What a map feature does with the detections of a frame.                    *)
(* Points and 2D points search the image around the place where they should    *)
(* be seen; planes search the detected planes for the one that overlaps most.  *)
EXTENDS KeypointIndex, Lattice

Radius(wide) == IF wide = 1 THEN 120 ELSE 60
\* the identity a point was followed with comes first (1 is the identity of the feature itself)
PointAnswer(f, p, taken, wide) ==
  IF TrackAnswer(f, 1, {}) # {} THEN TrackAnswer(f, 1, {}) ELSE Answer(f, p, Radius(wide), taken, 7)
\* 2D points do not take back a followed detection which is already taken
Point2DAnswer(f, p, taken, wide) ==
  IF TrackAnswer(f, 1, taken) # {} THEN TrackAnswer(f, 1, taken) ELSE Answer(f, p, Radius(wide), taken, 7)
\* what a point looks like is what it looked like when last seen (descriptors: a number of bits set, in order)
Look(d0, upd, d1) == IF upd = 1 /\ d1 >= 0 THEN d1 ELSE d0
Far(a, b) == IF a < b THEN b - a ELSE a - b
Compared(f, look) == [f EXCEPT !.det = [i \in DOMAIN f.det |-> [f.det[i] EXCEPT !.d = Far(look, f.det[i].d)]]]
\* a detection exactly on the search circle: rounding decides
OnCircle(f, p, wide) == \E i \in 1..Len(f.det) : D2(f.det[i], p) = Radius(wide) * Radius(wide)
PositionOf(f, i) == IF i <= Len(f.det) THEN f.det[i] ELSE f.trk[i - Len(f.det)]

\* A 2D point lies somewhere on its ray, from two fifths of its first estimate c0 to infinity
Two5(c) == <<(2 * c[1]) \div 5, (2 * c[2]) \div 5, (2 * c[3]) \div 5>>
NearEnd(pose0, c0, pose) == ToCam(pose, ToWorld(pose0, Two5(c0)))
FarEnd(pose0, c0, pose) == Mul(Tr(pose.R), Mul(pose0.R, c0))   \* a direction: only its position in the image matters
Inset(X, Z, half, size) == 960 * X + half * Z > 4 * Z /\ 960 * X + half * Z < (size - 4) * Z
WellInside(c) == c[3] > 0 /\ Inset(c[1], c[3], 640, Width) /\ Inset(c[2], c[3], 480, Height)
SideOut(a, b, za, zb, half, size) == \/ 960 * a + half * za < 0 /\ 960 * b + half * zb < 0
                                     \/ 960 * a + half * za > size * za /\ 960 * b + half * zb > size * zb
SameSideOut(e, f) == SideOut(e[1], f[1], e[3], f[3], 640, Width) \/ SideOut(e[2], f[2], e[3], f[3], 480, Height)

-----------------------------------------------------------------------------
(* Planes: the map plane is the rectangle rect = [D, x1, x2, y1, y2] facing a  *)
(* first camera; it is searched from a second camera displaced by Disp.        *)
\* as seen from the second camera: normal, distance, corners
Normal1(Disp) == Mul(Tr(Disp.R), <<0, 0, -1>>)
Dist1(rect, Disp) == rect.D - Disp.t[3]
Corner(rect, Disp, x, y) == Inside(Disp, <<x, y, rect.D>>)
Facing(Disp) == Normal1(Disp) = <<0, 0, -1>>
Behind(rect, Disp) == \A x \in {rect.x1, rect.x2}, y \in {rect.y1, rect.y2} : Corner(rect, Disp, x, y)[3] < 0
InFront(rect, Disp) == \A x \in {rect.x1, rect.x2}, y \in {rect.y1, rect.y2} : Corner(rect, Disp, x, y)[3] > 0
Abs1(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* the same rectangle, in the axes of the second camera (when it faces it)
Rect1(rect, Disp) ==
  LET a == Corner(rect, Disp, rect.x1, rect.y1)
      b == Corner(rect, Disp, rect.x2, rect.y2)
  IN [D |-> a[3], x1 |-> Min(a[1], b[1]), x2 |-> Max(a[1], b[1]), y1 |-> Min(a[2], b[2]), y2 |-> Max(a[2], b[2])]
Area(q) == ((q.x2 - q.x1) \div 100) * ((q.y2 - q.y1) \div 100)
Inter(q, s) == LET w == Min(q.x2, s.x2) - Max(q.x1, s.x1)
                   h == Min(q.y2, s.y2) - Max(q.y1, s.y1)
               IN IF w <= 0 \/ h <= 0 THEN 0 ELSE (w \div 100) * (h \div 100)
\* a detection is [D, x1, x2, y1, y2, s, c, n]: tilted by the angle of (s, c) / n
Upright(d) == d.s = 0
AngleSimilar(d) == 10000 * d.c > 9397 * d.n      \* cos 20 degrees
\* distance of a detected plane to the camera
DetDist(d) == (d.s * ((d.x1 + d.x2) \div 2) + d.c * d.D) \div d.n
DistSimilar(rect, Disp, d) == Dist1(rect, Disp) - DetDist(d) \in (-99)..99
OnLimit(rect, Disp, d) == Abs1(Dist1(rect, Disp) - DetDist(d)) \in 98..102
\* at least two fifths of the detected plane (one fifth in the wide search); tenths
Share(wide) == IF wide = 1 THEN 2 ELSE 4
Enough(rect, Disp, d, wide) == LET a == Inter(Rect1(rect, Disp), d) IN a > 0 /\ 10 * a >= Share(wide) * Area(d)
JustEnough(rect, Disp, d, wide) == 10 * Inter(Rect1(rect, Disp), d) = Share(wide) * Area(d)
Eligible(rect, Disp, dets, taken, wide) ==
  IF ~Facing(Disp) THEN {}
  ELSE {i \in 1..Len(dets) : /\ i \notin taken
                             /\ AngleSimilar(dets[i]) /\ DistSimilar(rect, Disp, dets[i])
                             /\ Enough(rect, Disp, dets[i], wide)}
\* the ones of greatest overlap
Best(rect, Disp, dets, taken, wide) ==
  LET E == Eligible(rect, Disp, dets, taken, wide)
  IN {i \in E : \A j \in E : Inter(Rect1(rect, Disp), dets[j]) <= Inter(Rect1(rect, Disp), dets[i])}

\* agreement of a detected plane of normal n / den and distance d with the map plane, in hundredths for the normal
CloseNormal(n, den, m) == \A i \in 1..3 : LET e == n[i] - den * m[i] IN 10 * e <= 2 * den /\ 10 * e >= -2 * den
PlaneAgrees(rect, Disp, n, den, d) == CloseNormal(n, den, Normal1(Disp)) /\ Dist1(rect, Disp) - d \in (-50)..50
\* a rectangle in front is seen when a part of it falls in the image (exact touching: either)
SpanIn(a, b, Z, half, size) == 960 * b + half * Z > 4 * Z /\ 960 * a + half * Z < (size - 4) * Z
SpanOut(a, b, Z, half, size) == 960 * b + half * Z < 0 \/ 960 * a + half * Z > size * Z
=============================================================================
