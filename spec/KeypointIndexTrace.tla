------------------------- MODULE KeypointIndexTrace -------------------------
EXTENDS KeypointIndex, Conf
VARIABLE k

\* depth planted at pixel (x, y) of the image given to the real code
Depth(x, y) == 1000 + 7 * x + 3 * y
\* depth is read at the nearest pixel, points on the border have none
SeenDepth(w, h, p) ==
  IF 2 <= p.x /\ 2 <= p.y /\ p.x < 2 * (w - 1) /\ p.y < 2 * (h - 1) THEN Depth((p.x + 1) \div 2, (p.y + 1) \div 2) ELSE 0

OneQuery(f, ratio, q) ==
  LET taken == ToSet(q.taken) IN
  /\ Check("search answers something else than the clear best free detection within the radius",
           ToSet(q.match) = Answer(f, q.p, q.R, taken, ratio))
  /\ Check("identity lookup is wrong", ToSet(q.track) = TrackAnswer(f, q.id, taken))
  /\ Check("identity lookup (free or not) is wrong", ToSet(q.tracka) = TrackAnswer(f, q.id, {}))
OneFrame(r) ==
  LET f == r.f IN
  /\ Check("not all points of the frame are stored", r.count = Count(f) /\ Len(r.pts) = Count(f))
  /\ Check("a stored point differs from the given one",
           \A i \in 1..Count(f) : LET g == IF i <= Len(f.det) THEN f.det[i] ELSE f.trk[i - Len(f.det)] IN
              /\ r.pts[i].x = g.x /\ r.pts[i].y = g.y
              /\ r.pts[i].z = SeenDepth(r.s[1], r.s[2], g)
              /\ r.pts[i].desc = IF i <= Len(f.det) THEN g.d ELSE -1)
  /\ \A i \in 1..Len(r.q) : OneQuery(f, r.ratio, r.q[i])

Init == k = 1
Next == k <= Len(Trace) /\ OneFrame(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
