----------------------------- MODULE PlanesTrace ------------------------------
EXTENDS Planes, Conf
VARIABLE k
\* the boundary holds most of the surrounded cells (its simplification may cut corners)
Shows(p, R) == LET C == Core(R) IN 4 * Cardinality(C \cap ToSet(p.cells)) >= 3 * Cardinality(C)
FrameOK(f, g) ==
  LET v == TLCEval(View(f)) regs == TLCEval(Regions(v)) found == g.planes
      sure == {x \in regs : Sure(x[2])} may == {x \in regs : Cardinality(x[2]) >= MinEver} IN
  /\ Check("a plane is found where there is none", \A i \in DOMAIN found : \E x \in may : SamePlane(found[i], x[1]) /\ InBox(found[i].cells, x[2], 1))
  /\ Check("a flat part of the scene is not found", \A x \in sure : \E i \in DOMAIN found : SamePlane(found[i], x[1]) /\ Shows(found[i], x[2]) /\ InBox(found[i].cells, x[2], 1))
  /\ Check("a flat part of the scene is found twice", \A s \in {x[1] : x \in may} :
        LET c == Cardinality({i \in DOMAIN found : SamePlane(found[i], s)}) IN
        c <= Cardinality({x \in may : x[1] = s}) /\ c >= Cardinality({x \in sure : x[1] = s}))
  /\ Check("the boundary of a plane is not a polygon", \A i \in DOMAIN found : found[i].valid = 1)
  /\ Check("a cylinder is found in a scene of planes", g.cyl = 0)
SceneOK(o) == \A i \in DOMAIN o.fr : FrameOK(o.fr[i], o.frames[i])
Within(a, b, t) == \A i \in 1..3 : Abs(a[i] - b[i]) <= t
\* a fit: scaled normal, offset, centroid (scale 2N)
FitOK(o, got, cen, m, count, t) ==
  LET n == Norm(o.q) IN
  /\ Check("the number of points is wrong", o.count = count)
  /\ Check("the centroid is wrong", Within(Scale(2 * n, got), cen, 2 * n * t))
  /\ Check("the normal is wrong or away from the camera", Abs(FitD(o.q, o.at0)) > 30 * n => Within(Scale(n, o.n), Scale(1000, FitN(o.q, o.at0)), 5 * n))
  /\ Check("the distance of the plane is wrong", Abs(FitD(o.q, o.at0)) > 30 * n => Abs(n * o.d - FitD(o.q, o.at0)) <= 2 * n)
  /\ Check("the error of the fit is wrong", Abs(o.m - m) <= 30 + ((m * 6) \div 100))
PatchOK(o) ==
  LET count == 20 * (20 - o.blank) mid == (20 - o.blank) + 19 n == Norm(o.q) IN
  IF o.blank > 6 \/ o.e > 2 \/ o.jump # 0
  THEN Check("a patch that is rough, broken or mostly empty is taken for a plane", o.ok = 0)
  ELSE /\ Check("a flat patch is not taken for a plane", o.ok = 1)
       /\ FitOK(o, o.cen, Sub(Scale(2 * n, o.at0), Scale(o.blank * o.step, Col(M(o.q), 2))),
                (250 * o.e * o.e * (IF o.quiet = 1 THEN count - mid ELSE count)) \div count, count, 1)
RECURSIVE Sum2(_, _)
Sum2(s, i) == IF i = 0 THEN <<0, 0>> ELSE LET t == Sum2(s, i - 1) IN <<t[1] + s[i][1], t[2] + s[i][2]>>
MergeOK(o) ==
  LET n == Norm(o.q) l == Len(o.at) t == Sum2(o.at, l)
      off == Add(Scale(152 * t[1], Col(M(o.q), 1)), Scale(152 * t[2], Col(M(o.q), 2))) IN
  /\ Check("merged patches of a plane are not a plane", o.ok = 1)
  /\ FitOK(o, Scale(l, o.cen), Add(Scale(2 * n * l, o.at0), off), 1000, 400 * l, l)
JoinOK(o) ==
  LET m == M(o.q) N == Norm(o.q) n1 == Col(m, 3) n2 == Mul(m, <<0, -o.a[1], o.a[2]>>) c2 == Add(Scale(N, o.at0), Mul(m, o.m))
      s1 == Dot(n1, o.at0) s2 == Dot(n2, c2) same == (s1 > 0) = (s2 > 0)
      close == Abs(s1) < 30 * N \/ Abs(s2) < 30 * N * N * o.a[3] IN
  /\ Check("a flat patch is not taken for a plane", o.both = 1)
  /\ close \/ /\ Check("the angle of two patches is wrong", Abs(o.cos * o.a[3] - (IF same THEN 1 ELSE -1) * 1000 * o.a[2]) <= 6 * o.a[3])
              /\ Check("the distance of two patches is wrong", Abs(o.dist - Abs(o.m[3])) <= 2)
              /\ Check("patches are joined that should not be, or not joined", (o.ab = 1) = (same /\ 1000 * o.a[2] > 951 * o.a[3] /\ Abs(o.m[3]) < o.lim))
HistOK(o) ==
  LET start == {i \in DOMAIN o.pts : o.pts[i][1] >= 0} IN
  \A j \in DOMAIN o.got : Check("the points given are not those of the fullest bin", ToSet(o.got[j]) \in Fullest(o.pts, start \ {o.ops[x] : x \in 1..(j - 1)}) /\ Cardinality(ToSet(o.got[j])) = Len(o.got[j]))
Judge(o) == CASE o.type = "scene" -> SceneOK(o) [] o.type = "patch" -> PatchOK(o) [] o.type = "merge" -> MergeOK(o) [] o.type = "join" -> JoinOK(o) [] OTHER -> HistOK(o)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
================================================================================
