-------------------------------- MODULE Planes --------------------------------
(* What is to be found in a depth image whose cells each show one surface:     *)
(* every connected set of cells of one plane is a region.  Fits of planes to    *)
(* patches of points, and the histogram of directions the search starts from.   *)
EXTENDS Frames, FiniteSets

\* A surface: <<kind, normal, distance>>; kind 0 has no depth, 1 is a plane, 2 is rough.
\* A frame: [bg |-> surface, rects |-> sequence of [x, y, w, h, s]], later rectangles in front.  Cells are numbered row by row from 0.
CONSTANTS Wc, Hc
Cells == 0..(Wc * Hc - 1)
Inside(c, t) == LET x == c % Wc y == c \div Wc IN x >= t.x /\ x < t.x + t.w /\ y >= t.y /\ y < t.y + t.h
Top(f, c) == LET S == {i \in DOMAIN f.rects : Inside(c, f.rects[i])} IN IF S = {} THEN f.bg ELSE f.rects[CHOOSE i \in S : \A j \in S : j <= i].s
View(f) == [c \in Cells |-> Top(f, c)]
Next4(c) == (IF c % Wc > 0 THEN {c - 1} ELSE {}) \cup (IF c % Wc < Wc - 1 THEN {c + 1} ELSE {})
            \cup (IF c >= Wc THEN {c - Wc} ELSE {}) \cup (IF c + Wc < Wc * Hc THEN {c + Wc} ELSE {})
\* the cells of `in` reached from the set `from`
RECURSIVE Flood(_, _, _)
Flood(in, from, seen) == IF from = {} THEN seen ELSE
  LET more == TLCEval(((UNION {Next4(c) : c \in from}) \cap in) \ seen) IN Flood(in, more, seen \cup more)
RECURSIVE Split(_)
Split(S) == IF S = {} THEN {} ELSE LET c == CHOOSE x \in S : TRUE R == TLCEval(Flood(S, {c}, {c})) IN {R} \cup Split(S \ R)
Surfaces(v) == {s \in {v[c] : c \in Cells} : s[1] = 1}
\* regions of a view, as <<surface, cells>>
Regions(v) == UNION {{<<s, R>> : R \in Split({c \in Cells : v[c] = s})} : s \in Surfaces(v)}
\* cells surrounded by the region, and cells that are all in the box of a region widened by m cells
Core(R) == {c \in R : c % Wc > 0 /\ c % Wc < Wc - 1 /\ \A dy \in -1..1 : \A dx \in -1..1 : (c + dy * Wc + dx) \in R}
Low(S) == CHOOSE a \in S : \A b \in S : a <= b
High(S) == CHOOSE a \in S : \A b \in S : a >= b
InBox(s, R, m) == LET X == {c % Wc : c \in R} Y == {c \div Wc : c \in R} x1 == TLCEval(Low(X)) x2 == TLCEval(High(X)) y1 == TLCEval(Low(Y)) y2 == TLCEval(High(Y)) IN
  \A i \in DOMAIN s : LET c == s[i] IN c % Wc >= x1 - m /\ c % Wc <= x2 + m /\ c \div Wc >= y1 - m /\ c \div Wc <= y2 + m
\* found for sure: enough cells, of which some are surrounded; never found: too few cells
MinSure == 24
MinEver == 4
Sure(R) == Cardinality(R) >= MinSure /\ Core(R) # {}
\* Normals in use, with their unit vectors in thousandths
Unit(n) == CASE n = <<0, 0, -1>> -> <<0, 0, -1000>> [] n = <<0, -1, -1>> -> <<0, -707, -707>> [] n = <<-1, 0, -1>> -> <<-707, 0, -707>>
             [] n = <<1, 0, -1>> -> <<707, 0, -707>> [] n = <<0, 1, -1>> -> <<0, 707, -707>> [] OTHER -> <<-48, -242, -969>>
Near(a, b, t) == \A i \in 1..3 : a[i] - b[i] <= t /\ b[i] - a[i] <= t
SamePlane(p, s) == Near(p.n, Unit(s[2]), 12) /\ p.d - s[3] <= 2 + (s[3] \div 100) /\ s[3] - p.d <= 2 + (s[3] \div 100)

(* ---- fits: a patch of 20 x 20 points of a plane, alternately e/2 above and below it ---- *)
\* N times the normal, turned to the camera, and N times the distance
FitN(q, c) == LET z == Col(M(q), 3) IN IF Dot(z, c) > 0 THEN Scale(-1, z) ELSE z
FitD(q, c) == -Dot(FitN(q, c), c)
\* squared depth resolution, in thousandths of mm2, at z mm (bounds of it)
(* ---- histogram: each live point is in the bin of its direction; asked for the points of a fullest bin ---- *)
BinOf(p) == IF p[1] = 0 THEN <<0, 0>> ELSE p
Fullest(pts, live) ==
  LET B == {BinOf(pts[i]) : i \in live} In(b) == {i \in live : BinOf(pts[i]) = b}
      m == IF B = {} THEN 0 ELSE High({Cardinality(In(b)) : b \in B}) IN
  IF B = {} THEN {{}} ELSE {In(b) : b \in {c \in B : Cardinality(In(c)) = m}}
================================================================================
