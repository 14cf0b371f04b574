------------------------------ MODULE SlamTrace -----------------------------
EXTENDS Slam, Conf
VARIABLES k, eng, pose, var, pts, pl, ids
vars == <<k, eng, pose, var, pts, pl, ids>>
Points0 == [i \in 1..Sites |-> {[p |-> Empty, f |-> Empty]}]
Planes0 == [i \in 1..3 |-> {Empty}]
pt == [i \in DOMAIN pts |-> {q.p : q \in pts[i]}]
fl == [i \in DOMAIN pts |-> {q.f : q \in pts[i]}]
Fresh == /\ eng' = Start /\ pose' = 0 /\ var' = 0 /\ pts' = Points0 /\ pl' = Planes0 /\ ids' = {}
Init == k = 1 /\ eng = Start /\ pose = 0 /\ var = 0 /\ pts = Points0 /\ pl = Planes0 /\ ids = {}

MatchedSites(r, kind) == {r.matches[x].site : x \in {y \in 1..Len(r.matches) : r.matches[y].k = kind}}
Handed(r, kind, P, det) ==
  LET M == MatchedSites(r, kind)
      cnt == Cardinality({y \in 1..Len(r.matches) : r.matches[y].k = kind})
  IN IF r.called = 0 THEN TRUE
     ELSE /\ Check("a " \o kind \o " detection was handed over twice or is unknown", Cardinality(M) = cnt)
          /\ Check("a " \o kind \o " match was not handed to the pose estimation", Must(kind, P, det) \subseteq M)
          /\ Check("a " \o kind \o " match was handed over without reason", M \subseteq May(kind, P, det))
\* a rejection takes effect on the matches that were handed over
Rej(r, kind, rej, i) == i \in rej /\ i \in MatchedSites(r, kind)
Frame(r) ==
  LET ok == r.ok = 1 /\ r.called = 1
      e == Engine(eng, ok)
  IN /\ Check("the pose estimation was " \o (IF r.called = 1 THEN "" ELSE "not ") \o "called", (r.called = 1) = ~eng.first)
     /\ Check("the search started from another pose than the last answer", r.called = 1 => r.pred = pose)
     /\ Handed(r, "point", pt, r.det) /\ Handed(r, "flat", fl, r.det) /\ Handed(r, "plane", pl, r.pl)
     /\ Check("keypoint search over the whole image: " \o ToString(r.forced), (r.forced = 1) = Forced(eng))
     /\ Check("a followed point is not where it was matched in the last frame",
              \A x \in 1..Len(r.tracked) : <<r.tracked[x].id, r.tracked[x].site>> \in ids \/ <<0, r.tracked[x].site>> \in ids)
     /\ Check("an unconfirmed point is followed", \A x \in 1..Len(r.tracked) : \E b \in pt[r.tracked[x].site] : HasLocal(b))
     /\ Check("the answered pose is not the estimated one / the last one", r.pose = (IF ok THEN r.k ELSE pose))
     /\ Check("the answered pose has another uncertainty", r.vout = (IF ok THEN r.var ELSE var))
     /\ Check("tracking lost is " \o ToString(r.red), (r.red = 1) = e.lost)
     /\ eng' = e /\ pose' = r.pose /\ var' = r.vout
     /\ pts' = [i \in 1..Sites |-> AfterPoints(pts[i], r.det[i], ok, eng.lost, Rej(r, "point", ToSet(r.rej), i), Rej(r, "flat", ToSet(r.rejf), i))]
     /\ pl' = [i \in 1..3 |-> AfterPlanes(pl[i], r.pl[i], ok, eng.lost, Rej(r, "plane", ToSet(r.rejp), i))]
     \* followed in the next frame: matched (and not rejected) points of a located frame
     /\ ids' = IF ~ok THEN {} ELSE {<<r.matches[x].id, r.matches[x].site>> : x \in {y \in 1..Len(r.matches) :
                       r.matches[y].k = "point" /\ r.matches[y].site \notin ToSet(r.rej)}}
                        \* matched but not handed over: their identity was not seen
                        \cup {<<0, i>> : i \in {j \in SeenSites(r.det) : MaybeLocal(pt, r.det) >= 3 * Need("point") /\ j \notin MatchedSites(r, "point")}}
                        \* 2D points that became map points get another identity
                        \cup {<<0, i>> : i \in {j \in SeenSites(r.det) : r.det[j] = "S" /\ (j \in MatchedSites(r, "flat") \/ MaybeLocal(fl, r.det) >= 3 * Need("flat"))}}
\* the exported map: every feature that was in the map is written once, when it is lost or at the end
Count(q, i) == Cardinality({x \in 1..Len(q) : q[x] = i})
Shows(P, q) == \A i \in DOMAIN P : \E b \in P[i] : Count(q, i) = b.w + Len(b.l)
End(r) == /\ Check("an exported point or plane is not where it was seen", \A x \in 1..Len(r.points) : r.points[x] > 0)
          /\ Check("an exported plane is not where it was seen", \A x \in 1..Len(r.polys) : r.polys[x] > 0)
          /\ Check("the exported points are not the ones of the map", Shows(pt, r.points))
          /\ Check("the exported planes are not the ones of the map", Shows(pl, r.polys))
          /\ Fresh
Next == k <= Len(Trace) /\ (IF Trace[k].op = "frame" THEN Frame(Trace[k]) ELSE End(Trace[k])) /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Accepted == AtDiameter
=============================================================================
