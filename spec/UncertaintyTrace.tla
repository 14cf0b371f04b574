-------------------------- MODULE UncertaintyTrace --------------------------
EXTENDS Uncertainty, Conf
VARIABLE k
Within(x, y, e) == \A i \in DOMAIN y : \A j \in DOMAIN y[i] : Abs(x[i][j] - y[i][j]) <= e
AbsM(a) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> Abs(a[i][j])]]
Same(x, y) == Within(x, y, 0)
Part(x) == [i \in 1..3 |-> [j \in 1..3 |-> x[i][j]]]
MoveOK(o) ==
  /\ Check("uncertainty of a world point is wrong", Same(o.w, WorldCov(o.q, o.C, o.P)))
  /\ Check("uncertainty of a camera point is wrong", Same(o.c, CameraCov(o.q, o.C, o.P)))
  /\ Check("inexact result", o.off <= 20)
PixelOK(o) ==
  LET E == << <<o.e[1], 0, 0>>, <<0, o.e[2], 0>>, <<0, 0, o.e[3]>> >>
      N == Norm(o.q)
  IN
  /\ Check("uncertainty of a pixel is wrong", Same(o.px, PixelCov(o.a, o.b, o.k, o.C)))
  \* the correlation between axes may be given without its sign
  /\ Check("uncertainty of a measured point is wrong", Same(AbsM(o.pt), AbsM(PointCov(o.i, o.j, o.z, E))) /\ Symmetric(o.pt))
  /\ Check("a measured point has not the uncertainty of its pixel and depth", o.same = 1)
  /\ Check("inexact result", o.off <= 20)
Blocks(A, B) == (Symmetric(A) /\ Symmetric(B))
ValidOK(o) ==
  /\ Check("a valid uncertainty was refused", Positive(o.A) => o.a = 1 /\ o.a2 = 1)
  /\ Check("an invalid uncertainty was accepted", Negative(o.A) => o.a = 0 /\ o.ab = 0)
  /\ Check("a valid uncertainty of a pose was refused", Positive(o.A) /\ Positive(o.B) => o.ab = 1)
  /\ Check("an invalid uncertainty of a pose was accepted", Negative(o.B) => o.ab = 0)
  /\ Check("an asymmetric uncertainty was accepted", o.x # o.y => o.bad = 0)
  /\ Check("undefined values were accepted as an uncertainty", o.nan = 0 /\ o.inf = 0)
PlaneOK(o) ==
  /\ Check("uncertainty of the orientation of a plane is wrong", Same(Part(o.n), NormalCov(o.m, o.K, o.C)))
  /\ Check("uncertainty of a plane as a point is wrong", Same(o.f, FootCov(o.m, o.K, o.d, o.F, <<0, 0, 0>>, o.v)))
  /\ Check("inexact result", o.off <= 20)
WorldOK(o) ==
  LET N == Norm(o.q)
      R == [i \in 1..3 |-> [j \in 1..3 |-> RotW(o.q)[i][j] \div N]]
      mw == Mul(R, o.m)
      e == o.K * o.d - Dot(Position(o.t), mw)                  \* offset of the world plane, scale K
      \* foot point, in hundredths (scale 100 K K), rotated, plus the position of the camera
      foot == Plus(Times(100, FootCov(o.m, o.K, o.d, o.C, <<0, 0, 0>>, o.v)), Id(o.K * o.K))
      both == Plus(Through(R, foot), Times(100 * o.K * o.K, o.P))
      \* divided by (e / K)^2 and by the length of the normal to the fourth
      cov == Through(Flat(mw, o.K), both)
  IN e # 0 => /\ Check("the uncertainty of a world plane could not be computed", o.ok = 1)
              /\ Check("uncertainty of a world plane is wrong", Within(Part(o.n), cov, 1 + (IF e * e > 100 THEN (e * e) \div 100 ELSE 0)))
DepthOK(o) ==
  /\ Check("depth uncertainty below half a millimetre", o.qz >= 500)
  /\ Check("depth uncertainty does not follow the sensor model", o.q20 = DepthModel(o.k))
  /\ Check("depth uncertainty does not grow with depth", o.z <= o.w => o.qz <= o.qw)
  /\ Check("pixel uncertainty is not defined", o.ok = 1)
  /\ Check("an unusable depth is more certain than a usable one", o.vout >= o.vz)
Judge(o) == CASE o.type = "move" -> MoveOK(o) [] o.type = "pixel" -> PixelOK(o) [] o.type = "valid" -> ValidOK(o)
              [] o.type = "plane" -> PlaneOK(o) [] o.type = "world" -> WorldOK(o) [] o.type = "depth" -> DepthOK(o)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
