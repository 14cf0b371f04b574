------------------------------ MODULE DepthMap ------------------------------
(* The depth image, seen by camera two, is aligned with the image of camera    *)
(* one, and then turned into points grouped by square cells.  Focal lengths    *)
(* are powers of two, centres are doubled, depths are integers: all positions  *)
(* are exact integers once scaled by twice the product of the focal lengths.   *)
EXTENDS Config, TLC
\* ---- alignment: c = [one, two, t, r], a camera is <<fx, fy, 2 cx, 2 cy>>
Scale(c) == 2 * c.two[1] * c.two[2]
Rotate(m, p) == <<D3(m[1], p), D3(m[2], p), D3(m[3], p)>>
Seen(c, m, u, v, z) ==
  LET p == <<(2 * u - c.two[3]) * z * c.two[2], (2 * v - c.two[4]) * z * c.two[1], z * Scale(c)>>
      q == Rotate(m, p)
  IN <<q[1] + Scale(c) * c.t[1], q[2] + Scale(c) * c.t[2], q[3] + Scale(c) * c.t[3]>>
\* the pixels along one axis that are nearest to the projection (two when it falls in between), and whether it is beyond doubt
Nearest(f, c2, x, z) ==
  LET n == 2 * f * x + c2 * z                    \* twice the coordinate, times z
      q == (n + z) \div (2 * z)
      rest == (n + z) % (2 * z)
      slack == z \div 1000 + 1
  IN [at |-> {q} \cup (IF rest <= slack THEN {q - 1} ELSE {}) \cup (IF rest >= 2 * z - slack THEN {q + 1} ELSE {}),
      sure |-> rest > slack /\ rest < 2 * z - slack]
\* what one pixel of the depth image gives: the pixels it may go to, whether it surely does, and the depth there
Source(c, m, u, v, z) ==
  IF z <= 0 THEN [some |-> FALSE] ELSE
  LET p == Seen(c, m, u, v, z) IN
  IF p[3] <= 0 THEN [some |-> FALSE] ELSE
  LET x == Nearest(c.one[1], c.one[3], p[1], p[3]) y == Nearest(c.one[2], c.one[4], p[2], p[3])
  IN [some |-> TRUE, at |-> {<<i, j>> : i \in x.at, j \in y.at}, sure |-> x.sure /\ y.sure, z |-> p[3]]
\* an image is a sequence of rows; all the sources of the aligned image
Sources(c, img) ==
  LET m == TLCEval(Turn3(c.r)) IN
  {s \in {Source(c, m, u - 1, v - 1, img[v][u]) : u \in DOMAIN img[1], v \in DOMAIN img} : s.some}
\* an aligned image is possible: every depth is that of a source, and no source is lost without another in its place
Aligned(c, img, g) ==
  LET S == TLCEval(Sources(c, img)) IN
  \A v \in DOMAIN img : \A u \in DOMAIN img[1] :
    LET here == {s \in S : <<u - 1, v - 1>> \in s.at} IN
    IF g[v][u] = 0 THEN \A s \in here : ~s.sure ELSE \E s \in here : s.z = g[v][u]
\* ---- cells
Cells(w, h, cell) == (w \div cell) * (h \div cell)
Whole(w, h, cell, u, v) == u \div cell < w \div cell /\ v \div cell < h \div cell
Place(w, cell, u, v) == ((v \div cell) * (w \div cell) + (u \div cell)) * cell * cell + (v % cell) * cell + (u % cell)
\* the pixel of a place
Pixel(w, cell, i) == LET k == i \div (cell * cell) l == i % (cell * cell) n == w \div cell IN <<(k % n) * cell + (l % cell), (k \div n) * cell + (l \div cell)>>
Point(cam, u, v, z) == IF z <= 0 THEN <<0, 0, 0>> ELSE <<(2 * u - cam[3]) * z, (2 * v - cam[4]) * z, z>>
=============================================================================
