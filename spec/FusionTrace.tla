----------------------------- MODULE FusionTrace ----------------------------
EXTENDS Fusion, Conf
VARIABLE k
KalmanOK(o) ==
  LET s == Step(o.F, o.Q, o.H, o.x, o.P, o.z, o.R) IN
  /\ Check("a filter not yet started took a measurement", o.early = 0)
  /\ Check("a measurement without valid uncertainty was taken", o.taken = 0)
  /\ Check("a refused measurement changed the estimate", o.kept = 1)
  /\ Check("an estimate of invalid uncertainty was used", o.wrong = 0)
  /\ Check("a valid measurement was refused", o.ok = 1)
  /\ Check("fused state is wrong", o.fx = s.x /\ o.sx = s.x)
  /\ Check("fused uncertainty is wrong", o.fP = s.P /\ o.sP = s.P)
  /\ Check("a second measurement is not fused with the result of the first", o.chain = 1)
  /\ Check("new dynamics are not used", o.dyn = 1)
  /\ Check("inexact result", o.off <= 20)
\* per axis; an axis without any uncertainty keeps its estimate
CertainOK(o) ==
  LET s(i) == o.P[i][i] + o.R[i][i] IN
  /\ Check("a measurement without uncertainty was refused", o.ok = 1)
  /\ Check("fused state is wrong", \A i \in DOMAIN o.x : s(i) > 0 => s(i) * o.fx[i] = 12 * (o.R[i][i] * o.x[i] + o.P[i][i] * o.z[i]))
  /\ Check("a certain state moved", \A i \in DOMAIN o.x : o.P[i][i] = 0 => o.fx[i] = 12 * o.x[i])
  /\ Check("fused uncertainty is wrong", \A i \in DOMAIN o.x : s(i) > 0 => s(i) * o.fP[i][i] = 12 * o.P[i][i] * o.R[i][i])
  /\ Check("inexact result", o.off <= 20)
StillOK(o) ==
  LET s == Still(1, o.x, o.P, o.z, o.R) IN
  /\ Check("a measurement without valid uncertainty was taken", o.taken = 0)
  /\ Check("a refused measurement changed the point", o.kept = 1)
  /\ Check("fused position is wrong", o.fx = s.x)
  /\ Check("fused uncertainty is wrong", o.fP = s.P)
  /\ Check("the displacement is wrong", o.score = 1)
  /\ Check("a second measurement is not fused with the result of the first", o.chain = 1)
  /\ Check("a point without descriptor, position or valid uncertainty was created", o.create = 0)
  /\ Check("inexact result", o.off <= 20)
\* a point measured further than the uncertainty of the measurement moves (known finding: only noticed downwards)
MovingOK(o) ==
  /\ Check("a moving point is not noticed", (\E i \in 1..3 : o.x[i] - o.z[i] > o.sd[i]) => o.moving = 1)
  /\ Check("a still point is said to move", (\A i \in 1..3 : Abs(o.x[i] - o.z[i]) < o.sd[i]) => o.moving = 0)
Block(A, i0, j0) == [i \in 1..3 |-> [j \in 1..3 |-> A[i0 + i][j0 + j]]]
Zeros == [i \in 1..3 |-> [j \in 1..3 |-> 0]]
InvOK(o) ==
  /\ Check("uncertainty of the position of a point without depth is wrong", o.cart = Around(ToPoint(o.m, o.h), o.C))
  /\ Check("uncertainty of the inverse depth is wrong", Block(o.back, 3, 3) = Around(FromPoint(o.m, o.h), o.A))
  /\ Check("uncertainty of the origin is wrong", Block(o.back, 0, 0) = o.P /\ Block(o.back, 0, 3) = Zeros /\ Block(o.back, 3, 0) = Zeros)
  /\ Check("depth usability score is wrong", (o.w[1] # 0 \/ o.w[2] # 0 \/ o.w[3] # 0) => o.lin = Linearity(o.m, o.e, o.w))
  /\ Check("inexact result", o.off <= 20)
SeenOK(o) ==
  /\ Check("a new point without depth has a wrong uncertainty", o.half = 500 /\ o.first = 1)
  /\ Check("an unusable depth was taken", o.z <= 40 \/ o.z > 6000 => o.deep = 0)
  /\ Check("a refused measurement changed the point", (o.deep = 0 => o.dkept = 1) /\ (o.flat = 0 => o.fkept = 1) /\ o.bkept = 1)
  /\ Check("a measurement from an invalid pose was taken", o.bad = 0 => o.btaken = 0)
  /\ Check("an accepted measurement was not fused", (o.deep = 1 => o.dsame = 1) /\ (o.flat = 1 => o.fsame = 1))
  /\ Check("a good measurement was refused", (o.dgood = 1 => o.deep = 1) /\ (o.fgood = 1 => o.flat = 1))
  /\ Check("the first sight of a point changed", o.origin = 1)
PlaneOK(o) ==
  LET s == o.p + 1 + o.rn
      sd == o.pd + 1 + o.rd
      W == [i \in 1..3 |-> o.K2 * o.rn * o.m1[i] + o.K1 * (o.p + 1) * o.m2[i]]
      x == << o.fn[2] * W[3] - o.fn[3] * W[2], o.fn[3] * W[1] - o.fn[1] * W[3], o.fn[1] * W[2] - o.fn[2] * W[1] >>
      len == Abs(W[1]) + Abs(W[2]) + Abs(W[3])
  IN
  /\ Check("a measurement without valid uncertainty changed the plane", o.kept = 1)
  /\ Check("a plane measurement was refused", o.ok = 1)
  /\ Check("fused orientation is wrong", (\A i \in 1..3 : Abs(x[i]) <= len) /\ o.fn[1] * W[1] + o.fn[2] * W[2] + o.fn[3] * W[3] > 0 /\ o.unit = 1)
  /\ Check("fused offset is wrong", o.fd = o.d * sd + (o.pd + 1) * o.zd)
  /\ Check("fused uncertainty of a plane is wrong", o.fP = <<(o.p + 1) * o.rn, (o.p + 1) * o.rn, (o.p + 1) * o.rn, (o.pd + 1) * o.rd>> /\ o.diag = 1)
Judge(o) == CASE o.type = "kalman" -> KalmanOK(o) [] o.type = "certain" -> CertainOK(o) [] o.type = "still" -> StillOK(o) [] o.type = "moving" -> MovingOK(o)
              [] o.type = "inv" -> InvOK(o) [] o.type = "seen" -> SeenOK(o) [] o.type = "plane" -> PlaneOK(o)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
