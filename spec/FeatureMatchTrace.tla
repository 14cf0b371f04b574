-------------------------- MODULE FeatureMatchTrace -------------------------
EXTENDS FeatureMatch, Conf
VARIABLE k

\* the matches handed to the pose estimation: one for each answer, naming this feature and that detection
Handed(r) == /\ Len(r.m) = (IF r.add = 1 THEN Len(r.res) ELSE 0)
             /\ {r.m[i].i : i \in DOMAIN r.m} = (IF r.add = 1 THEN ToSet(r.res) ELSE {})
             /\ \A i \in DOMAIN r.m : r.m[i].own = 1 /\ r.m[i].valid = 1

OnePoint(r) ==
  LET flat == r.type = "flat"
      c == Inside(r.disp, r.c0)
      p == Seen(c)
      taken == ToSet(r.taken)
      f == Compared(r.f, Look(r.d0, r.upd, r.d1))
      \* seen again without its depth: it may have moved along its first line of sight
      moved == ~flat /\ r.again = 2
      nearCircle == \E i \in 1..Len(f.det) : LET d == D2(f.det[i], p) R == Radius(r.wide) IN d >= (R - 8) * (R - 8) /\ d <= (R + 8) * (R + 8)
      want == IF flat THEN Point2DAnswer(f, p, taken, r.wide) ELSE PointAnswer(f, p, taken, r.wide)
      world == ToWorld(r.pose0, r.c0)
      \* direction in which a 2D point may be seen: along the displacement
      e == Mul(Tr(r.disp.R), r.disp.t)
      off(m) == LET q == PositionOf(f, m.i) IN <<q.x - p.x, q.y - p.y>>
      wantDist(m) == IF ~flat THEN off(m)
                     ELSE IF e[1] # 0 THEN <<0, off(m)[2]>> ELSE <<off(m)[1], 0>>
      agrees(d) == IF flat THEN Abs(d[1]) <= 6 /\ Abs(d[2]) <= 6 ELSE Abs(d[1]) + Abs(d[2]) <= 6
      edge(d) == IF flat THEN Abs(d[1]) = 6 \/ Abs(d[2]) = 6 ELSE Abs(d[1]) + Abs(d[2]) = 6
  IN
  /\ Check("a point seen again at the same place refuses it", r.again = 1 => r.upd = 1)
  /\ IF IF moved THEN r.disp.t = <<0, 0, 0>> /\ WellInside(c) /\ ~nearCircle ELSE WellInImage(c) /\ ~OnCircle(f, p, r.wide)
     THEN Check("matched to the wrong detection" \o ": " \o r.type, ToSet(r.res) = want /\ Len(r.res) = Cardinality(want)) ELSE TRUE
  /\ Check("matches handed to the pose estimation differ from the answer" \o ": " \o r.type, Handed(r))
  /\ \A i \in DOMAIN r.m : LET m == r.m[i] d == wantDist(m) IN
       /\ Check("match has the wrong type" \o ": " \o r.type, m.type = IF flat THEN 1 ELSE 0)
       /\ moved \/ Check("retroprojection error is wrong" \o ": " \o r.type, m.dist = d)
       /\ IF moved \/ edge(d) THEN TRUE ELSE Check("agreement of a match with the pose is wrong" \o ": " \o r.type, (m.inl = 1) = agrees(d))
  /\ IF flat
     THEN \A i \in DOMAIN r.views : LET e1 == FarEnd(r.pose0, r.c0, r.views[i]) e2 == NearEnd(r.pose0, r.c0, r.views[i]) IN
            IF WellInside(e1) /\ WellInside(e2) THEN Check("a 2D point in the image is reported invisible", r.vis[i] = 1)
            ELSE IF e1[3] < 0 /\ e2[3] < 0 THEN Check("a 2D point behind the camera is reported visible", r.vis[i] = 0)
            ELSE IF e1[3] > 0 /\ e2[3] > 0 /\ SameSideOut(e1, e2) THEN Check("a 2D point out of the image is reported visible", r.vis[i] = 0)
            ELSE TRUE
     ELSE moved \/
          /\ Check("a visible point is not followed at the place where it is seen",
                   WellInImage(c) => r.trk = <<1, 1, 1, p.x, p.y>>)
          /\ \A i \in DOMAIN r.views : LET q == ToCam(r.views[i], world) IN
               IF InImage(q) # WellInImage(q) THEN TRUE
               ELSE Check("visibility of a point is wrong", (r.vis[i] = 1) = InImage(q))

OnePlane(r) ==
  LET taken == ToSet(r.taken)
      best == Best(r.rect, r.disp, r.dets, taken, r.wide)
      tilted == \E i \in DOMAIN r.dets : ~Upright(r.dets[i])
      edge == Facing(r.disp) /\ \E i \in DOMAIN r.dets : \/ JustEnough(r.rect, r.disp, r.dets[i], r.wide)
                                                         \/ ~Upright(r.dets[i]) /\ OnLimit(r.rect, r.disp, r.dets[i])
      d1 == Dist1(r.rect, r.disp)
  IN
  /\ IF Facing(r.disp) /\ InFront(r.rect, r.disp) /\ ~edge
     THEN Check("plane matched to the wrong detection",
                IF best = {} THEN r.res = << >> ELSE Len(r.res) = 1 /\ r.res[1] \in best) ELSE TRUE
  /\ IF Normal1(r.disp)[3] = 0 THEN Check("plane matched to a perpendicular one", (~tilted) => r.res = << >>) ELSE TRUE
  /\ Check("a taken plane was matched", ToSet(r.res) \cap taken = {} /\ Len(r.res) <= 1)
  /\ Check("planes handed to the pose estimation differ from the answer", Handed(r))
  /\ \A i \in DOMAIN r.m : LET m == r.m[i] d == r.dets[m.i] IN
       IF Upright(d) /\ Facing(r.disp)
       THEN /\ Check("retroprojection error of a plane is wrong", m.dist = <<0, 0, 2 * (d1 - d.D)>> /\ m.type = 2)
            /\ Check("agreement of a matched plane is wrong", Abs(d1 - d.D) = 50 \/ (m.inl = 1) = PlaneAgrees(r.rect, r.disp, <<0, 0, -1>>, 1, d.D))
       ELSE TRUE
  /\ \A i \in DOMAIN r.agree : LET a == r.agree[i] IN
       Check("agreement of a plane with the pose is wrong",
             (r.inl[i] = 1) = PlaneAgrees(r.rect, r.disp, <<a.t[1], a.t[2], a.t[3]>>, a.t[4], a.d))
  /\ \A i \in DOMAIN r.vdisp : LET D == r.vdisp[i] q == Rect1(r.rect, D) IN
       IF Behind(r.rect, D) THEN Check("a plane behind the camera is reported visible", r.vis[i] = 0)
       ELSE IF ~Facing(D) \/ ~InFront(r.rect, D) THEN TRUE
       ELSE IF SpanIn(q.x1, q.x2, q.D, 640, Width) /\ SpanIn(q.y1, q.y2, q.D, 480, Height)
            THEN Check("a plane in the image is reported invisible", r.vis[i] = 1)
       ELSE IF SpanOut(q.x1, q.x2, q.D, 640, Width) \/ SpanOut(q.y1, q.y2, q.D, 480, Height)
            THEN Check("a plane out of the image is reported visible", r.vis[i] = 0)
       ELSE TRUE

One(r) == IF r.type = "plane" THEN OnePlane(r) ELSE OnePoint(r)
Init == k = 1
Next == k <= Len(Trace) /\ One(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
