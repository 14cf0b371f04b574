----------------------------- MODULE FramesTrace ----------------------------
EXTENDS Frames, Conf
VARIABLE k
AbsV(a) == [i \in DOMAIN a |-> Abs(a[i])]
L1(a) == Abs(a[1]) + Abs(a[2]) + (IF Len(a) > 2 THEN Abs(a[3]) ELSE 0)
PointOK(o) ==
  LET N == Norm(o.q)
      cw == CameraOf(o.q, o.t, o.w)
      iw == Image(cw)
      ic == Image(o.c)
      \* screen point as a camera point: exact when the depth is a multiple of both focals
      s == <<((o.u - Cx) * o.z) \div Fx, ((o.v - Cy) * o.z) \div Fy, o.z>>
      far == Sub(Scale(N, o.w), WorldOf(o.q, o.t, s))
  IN
  /\ Check("camera to world is wrong", o.world = WorldOf(o.q, o.t, o.c))
  /\ Check("camera to world and back does not return", o.back = o.c)
  /\ Check("world to camera is wrong", o.cam = cw)
  /\ Check("the two ways of building the inverse disagree", o.cam2 = cw)
  /\ Check("projection to the image is wrong", o.c[3] # 0 => (o.ok = 1 /\ o.px = ic /\ o.pz = o.c[3]))
  /\ Check("2D projection to the image differs", o.c[3] # 0 => (o.ok2 = 1 /\ o.px2 = ic))
  /\ Check("visible position reported out of the image", InView(o.c) => o.seen = 1)
  /\ Check("position out of the image reported visible", OutOfView(o.c) => o.seen = 0)
  /\ Check("projection of a world point is wrong", cw[3] # 0 => (o.wok = 1 /\ o.wpx = iw))
  /\ Check("distance in pixels is wrong", cw[3] # 0 =>
        LET d == <<o.u * cw[3] - iw[1], o.v * cw[3] - iw[2]>> IN o.sd = d /\ o.dpx = L1(d))
  /\ Check("pixel to camera is wrong", o.u >= 0 /\ o.v >= 0 =>
        (o.sok = 1 /\ o.scam = <<CameraX(o.u, o.z), CameraY(o.v, o.z), o.z>>))
  /\ Check("a pixel left of or above the image was given a position", o.u < 0 \/ o.v < 0 => o.sok = 0)
  /\ Check("the direction of a pixel is wrong", o.dir = <<o.u - Cx, o.v - Cy>> /\ o.dirback = <<o.u, o.v>>)
  /\ Check("pixel to world is wrong", o.u >= 0 /\ o.v >= 0 /\ o.z % 1440 = 0 =>
        (o.mm = far /\ o.dmm = L1(far)))
  /\ Check("wrong image boundaries", o.on2 = (IF OnScreen(o.u, o.v) THEN 1 ELSE 0) /\ o.on3 = (IF OnScreen(o.u, o.v) /\ o.z > 0 THEN 1 ELSE 0))
  /\ Check("wrong range of usable depths", o.dv = (IF DepthUsable(o.z) THEN 1 ELSE 0))
  /\ Check("inexact result", o.off <= 20)
PlaneOK(o) ==
  LET N == Norm(o.q)
      S == N * o.K2
      pn == CameraNormal(o.q, o.m2)
      pd == CameraOffset(o.q, o.t, o.m2, o.K2, o.d2)
      dn == Sub(Scale(S, o.m1), Scale(o.K1, pn))
  IN
  /\ Check("plane to world is wrong", o.wn = WorldNormal(o.q, o.m1) /\ o.wd = WorldOffset(o.q, o.t, o.m1, o.K1, o.d1))
  /\ Check("plane to world and back does not return", o.bn = o.m1 /\ o.bd = o.K1 * o.d1)
  /\ Check("world plane to camera is wrong", o.cn = pn /\ o.cd = pd)
  /\ Check("signed distance of planes is wrong", o.sn = dn /\ o.sd = S * o.d1 - pd)
  /\ Check("reduced distance of planes is wrong",
           LET e == Sub(Scale(o.d1 * N * o.K2 * o.K2 * N, o.m1), Scale(o.K1, <<pd * pn[1], pd * pn[2], pd * pn[3]>>))
           IN \A i \in 1..3 : Abs(o.red[i] - e[i]) <= 1)
  /\ Check("distance of a point to a plane is wrong", o.pd = PlaneDistance(o.m1, o.K1, o.d1, o.p))
  /\ Check("closest point to the origin is wrong", o.ctr = Scale(-o.d1, o.m1))
  /\ Check("angle between planes is wrong", o.cos = Dot(o.m1, o.m2))
  /\ Check("inexact result", o.off <= 20)
Init == k = 1
Next == k <= Len(Trace) /\ (IF Trace[k].type = "point" THEN PointOK(Trace[k]) ELSE PlaneOK(Trace[k])) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
