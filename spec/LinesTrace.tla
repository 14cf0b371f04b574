----------------------------- MODULE LinesTrace -----------------------------
EXTENDS Lines, Conf
VARIABLE k
\* results rounded after scaling by large numbers
NearV(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Abs(x[i] - y[i]) <= 1
RayOK(o) ==
  LET N == Norm(o.q) d == Axes(Mul(M(o.q), o.m)) IN
  /\ Check("a 2D point does not start at the camera", o.first = Position(o.t))
  /\ Check("a 2D point is not in the direction of its pixel", o.bearing = d)
  /\ Check("a 2D point is not in front of the camera", o.front = 1)
  /\ Check("a measured point is not where it was measured", o.where = Add(Scale(N, Position(o.t)), Scale(o.depth, d)))
  /\ Check("inexact result", o.off <= 20)
CartOK(o) ==
  LET kf == Deviations - 3 * o.j
      kn == Deviations + 3 * o.j
      f == CameraScaled(o.q, o.t, FarAt(o.o, o.m, o.s, o.j), kf)
      c == CameraScaled(o.q, o.t, NearAt(o.o, o.m, o.s, o.j), kn)
  IN
  /\ Check("inverse distance is wrong", o.inv = 1000000)
  /\ Check("direction is wrong", o.bearing = o.m /\ o.first = o.o)
  /\ Check("angles out of range", o.range = 1)
  /\ Check("not the same position after conversion", o.where = Add(o.o, Scale(o.s, o.m)))
  /\ Check("closest possible position is wrong", o.near = NearAt(o.o, o.m, o.s, o.j))
  /\ Check("furthest possible position is wrong", kf > 0 => o.far = FarAt(o.o, o.m, o.s, o.j))
  /\ Check("furthest possible position is not far in front", kf <= 0 => o.beyond = 1)
  /\ Check("the possible positions do not project where they should", kf > 0 /\ f[3] # 0 /\ c[3] # 0 =>
        (o.pok = 1 /\ o.pf = Image(f) /\ o.pn = Image(c) /\ o.zfar = f[3] /\ o.znear = c[3]))
  /\ Check("inexact result", o.off <= 20)
PairOK(o) ==
  LET x == Cross(o.m1, o.m2) w == Cross(o.m1, Sub(o.o1, o.o2)) IN
  /\ Check("distance between two sight lines is wrong", ~Parallel(o.m1, o.m2) => o.v = Between(o.o1, o.m1, o.o2, o.m2))
  /\ Check("distance between parallel sight lines is wrong", Parallel(o.m1, o.m2) => Dot(o.v, o.v) = o.K1 * o.K1 * Dot(w, w))
CloseOK(o) == LET c == OnLine(o.a, o.b, o.p) e == Minus(o.b, o.a) l == DotN(e, e) IN o.a # o.b =>
  /\ Check("closest point of a line is wrong", NearV(o.c, c))
  /\ Check("distance to a line is wrong", NearV(o.d, [i \in DOMAIN c |-> l * o.p[i] - c[i]]))
ClampOK(o) == o.a # o.b =>
  /\ Check("a segment crossing the image was refused", Crosses(o.a, o.b) => o.ok = 1)
  /\ Check("a segment out of the image was kept", Misses(o.a, o.b) /\ ~(OnScreen(o.a[1], o.a[2]) /\ OnScreen(o.b[1], o.b[2])) => o.ok = 0)
  /\ Check("the part of the segment in the image is wrong", Crosses(o.a, o.b) =>
        LET C == Clipped(o.a, o.b) IN (\A p \in C : NearV(p, o.s1) \/ NearV(p, o.s2)) /\ (\E p \in C : NearV(p, o.s1)) /\ (\E p \in C : NearV(p, o.s2)))
Judge(o) == CASE o.type = "ray" -> RayOK(o) [] o.type = "cart" -> CartOK(o) [] o.type = "pair" -> PairOK(o)
              [] o.type = "close" -> CloseOK(o) [] o.type = "clamp" -> ClampOK(o)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
