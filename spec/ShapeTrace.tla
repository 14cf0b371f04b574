----------------------------- MODULE ShapeTrace -----------------------------
EXTENDS Shape, Conf
VARIABLE k
N(o) == Norm(o.q)
SizeIs(g, cells) == Abs(g - cells) = 0
\* areas come in cells, times 1
PairOK(o) ==
  LET A == TLCEval(Cells(o.a)) B == TLCEval({MovedCell(o.k, o.flip = 1, o.o, p) : p \in Cells(o.b)})
      I == A \cap B U == A \cup B one == Cardinality(Parts(U)) = 1
      ok == Kept(U, o.s) IN
  /\ Check("the area of a polygon is wrong", o.areaA = Cardinality(A) /\ o.areaB = Cardinality(B) /\ o.keptA = Cardinality(A))
  /\ Check("the area shared by two polygons is wrong", o.inter = Cardinality(I) /\ o.inter2 = Cardinality(I))
  /\ Check("the area covered by two polygons is wrong", o.union = Cardinality(U) /\ o.union2 = Cardinality(U))
  /\ Check("the overlap ratio is wrong", Clean(I) /\ Clean(U) => Abs(o.iou * Biggest(U) - 1000000 * Biggest(I)) <= 2 * Biggest(U))
  /\ Check("a point is wrongly in or out of a polygon", \A i \in DOMAIN o.win : \A j \in DOMAIN o.win[i] : o.win[i][j] = (IF <<i - 17, j - 17>> \in A THEN 1 ELSE 0))
  /\ Check("a union is not the area covered", Clean(U) /\ Cardinality(Parts(U)) = 1 /\ ok =>
        o.merged = Cardinality(U) /\ \A i \in DOMAIN o.win2 : \A j \in DOMAIN o.win2[i] : o.win2[i][j] = (IF <<i - 17, j - 17>> \in U THEN 1 ELSE 0))
  /\ Check("a union is not the biggest part", Clean(U) /\ ok => o.merged = Biggest(U))
  /\ Check("a union lost more than its simplification may", Clean(U) => 4 * o.merged >= 3 * Biggest(U))
  /\ Check("the remembered area of a union is not its area", o.mergedKept = 1)
Set3(s) == {s[i] : i \in DOMAIN s}
MoveOK(o) ==
  LET n == N(o) m == Norm(o.Q) P == TLCEval({Place(o.q, o.c, o.s, p) : p \in ToSet(Outline(o.a))})
      A == Cardinality(Cells(o.a)) flat == Facing(o.q, o.Q) = 0 IN
  /\ Check("a polygon is not at its place", ToSet(o.here) = P)
  /\ Check("the axes of a polygon are wrong", /\ o.x = Col(M(o.q), 1) /\ o.y = Col(M(o.q), 2) /\ o.z = Col(M(o.q), 3))
  /\ Check("a projected polygon is not the projection", ToSet(o.proj) = {Drop(o.Q, o.C, p, n) : p \in P} /\ (Abs(o.projArea * n * m - 1000 * A * Facing(o.q, o.Q)) <= n * m))
  /\ Check("a polygon projected on a plane is not the projection", ToSet(o.projN) = {Drop(o.Q, o.C, p, n) : p \in P} /\ o.normN = Col(M(o.Q), 3) /\ o.orthoN = 1)
  /\ Check("the frame of a projected polygon is wrong", o.projC = o.C /\ o.projX = Col(M(o.Q), 1) /\ o.projY = Col(M(o.Q), 2))
  /\ Check("a moved polygon is not the same one in the other frame", ToSet(o.trans) = {Place(o.Q, o.C, o.s, p) : p \in ToSet(Outline(o.a))} /\ o.transArea = 1000 * A)
  /\ Check("the frame of a moved polygon is wrong", o.transC = o.C /\ o.transX = Col(M(o.Q), 1) /\ o.transY = Col(M(o.Q), 2) /\ o.transNorm = Col(M(o.Q), 3))
  /\ Check("a polygon changes when going to the world",
        /\ ToSet(o.world) = {Axes(Add(Mul(M(o.Q), p), Scale(n * m, o.C))) : p \in P} /\ o.worldArea = 1000 * A
        /\ o.worldC = WorldOf(o.Q, o.C, o.c) /\ o.worldN = Axes(Mul(M(o.Q), Col(M(o.q), 3))))
  /\ Check("a polygon changes when coming back from the world", ToSet(o.back) = P /\ o.backArea = 1000 * A /\ o.backC = o.c /\ o.backN = Col(M(o.q), 3))
BumpOK(o) ==
  LET want == IF BumpGoes(o.w, o.h, o.e) THEN {o.w * o.h} ELSE IF BumpStays(o.w, o.h, o.e) THEN {BumpArea(o.w, o.h, o.e)} ELSE {o.w * o.h, BumpArea(o.w, o.h, o.e)} IN
  /\ Check("a boundary is simplified too much or not enough", o.left \in want /\ o.sides = (IF o.e # 0 /\ o.left = BumpArea(o.w, o.h, o.e) THEN 5 ELSE 4))
  /\ Check("a merged boundary is simplified too much or not enough", o.uleft \in want)
  /\ Check("the remembered area is not the area", o.kept = o.left /\ o.ukept = o.uleft)
HullOK(o) ==
  LET pts == ToSet(o.pts) flat == \E a, b \in pts : \A p \in pts : Turn(a, b, p) = 0 IN
  flat \/ /\ Check("the convex hull is wrong", IsHull(o.hull, pts))
          /\ Check("a polygon fitted to points leaves some of them out", o.in = 1)
          /\ Check("a fitted polygon is not a polygon", o.valid = 1 /\ o.area > 0)
Judge(o) == (CASE o.type = "pair" -> PairOK(o) [] o.type = "move" -> MoveOK(o) [] o.type = "bump" -> BumpOK(o) [] OTHER -> HullOK(o))
            /\ Check("the values are not exact", o.off <= 20)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
