-------------------------------- MODULE Slam --------------------------------
(* The tracking engine as its user sees it, frame after frame: which pose is   *)
(* answered, when tracking is declared lost, what is handed to the pose         *)
(* estimation, which features live in the maps and what ends in the map file.   *)
(* Features sit at fixed sites of a still scene, far apart in the image, so     *)
(* that a detection concerns only the features of its own site. A site may      *)
(* hold several features of a kind (after rejected matches or while lost); which *)
(* one takes the detection is then open, so a site is described by the set of   *)
(* its possible contents.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

PointLost(f) == f > 10
PlaneLost(f) == f >= 10
LostAfterFails == 3
Refresh == 5
Base == 20
Sites == 80
Need(kind) == IF kind = "plane" THEN 3 ELSE 5

Start == [first |-> TRUE, lost |-> TRUE, failed |-> 0, kcount |-> 0]
\* ok: the pose could be estimated in this frame
Engine(e, ok) ==
  [first |-> FALSE,
   kcount |-> (e.kcount % Refresh) + 1,
   failed |-> IF e.first \/ ok THEN 0 ELSE e.failed + 1,
   lost |-> IF e.first THEN e.lost ELSE IF ok THEN FALSE ELSE e.failed + 1 > LostAfterFails]
\* a new search of keypoints in the whole image is required
Forced(e) == e.lost \/ (e.kcount % Refresh) + 1 = 1

-----------------------------------------------------------------------------
(* Contents of one site for one kind: l the missed-frame counts of the map     *)
(* features, s the provisional ones, w how many were written already.          *)
Empty == [l |-> << >>, s |-> << >>, w |-> 0]
Lost(kind, f) == IF kind = "plane" THEN PlaneLost(f) ELSE PointLost(f)
Promoted(kind, c) == IF kind = "plane" THEN c.s >= 4 ELSE c.s >= 3
Dropped(kind, c) == IF kind = "plane" THEN c.f >= 2 ELSE c.s <= 0
Creates(kind, det) == CASE kind = "point" -> det = "S" [] kind = "flat" -> det = "F" [] kind = "plane" -> det # "-"
Written(kind) == kind # "flat"

NewOne == [s |-> 0, f |-> 0]
MissS(c) == [s |-> c.s - 1, f |-> c.f + 1]
HitS(c) == [s |-> c.s + 1, f |-> 0]
CountLost(kind, q) == Cardinality({i \in 1..Len(q) : Lost(kind, q[i])})
KeepL(kind, q) == SelectSeq(q, LAMBDA f : ~Lost(kind, f))
\* settle: lost features leave (and are written), confirmed ones enter the map, hopeless ones are dropped
Settle(kind, b, l, s, located) ==
  LET up == IF located THEN SelectSeq(s, LAMBDA c : Promoted(kind, c)) ELSE << >>
      stay == SelectSeq(s, LAMBDA c : ~(located /\ Promoted(kind, c)) /\ ~Dropped(kind, c))
  IN [l |-> KeepL(kind, l) \o [i \in 1..Len(up) |-> 0],
      s |-> stay,
      w |-> b.w + (IF Written(kind) THEN CountLost(kind, l) ELSE 0)]
Stage(kind, b, det) == IF Creates(kind, det) THEN [b EXCEPT !.s = Append(@, NewOne)] ELSE b

\* who takes the detection of the site: <<"l", i>>, <<"s", i>> or none
Takers(b, det) == IF det = "-" THEN {<<"-", 0>>}
                  ELSE IF b.l # << >> THEN {<<"l", i>> : i \in 1..Len(b.l)}
                  ELSE IF b.s # << >> THEN {<<"s", i>> : i \in 1..Len(b.s)}
                  ELSE {<<"-", 0>>}
Located(kind, b, det, taker, rejected) ==
  LET hit(w, i) == taker = <<w, i>> /\ ~rejected
      l == [i \in 1..Len(b.l) |-> IF hit("l", i) THEN 0 ELSE b.l[i] + 1]
      s == [i \in 1..Len(b.s) |-> IF hit("s", i) THEN HitS(b.s[i]) ELSE MissS(b.s[i])]
      c == Settle(kind, b, l, s, TRUE)
  IN IF taker[1] # "-" /\ ~rejected THEN c ELSE Stage(kind, c, det)
NotLocated(kind, b, det, lost) ==
  LET c == Settle(kind, b, [i \in 1..Len(b.l) |-> b.l[i] + 1], [i \in 1..Len(b.s) |-> MissS(b.s[i])], FALSE)
  IN IF lost THEN Stage(kind, c, det) ELSE c

\* A 2D point that took a detection with a depth becomes a map point (its count of missed frames starts again):
\* without the feature that took the detection
Without(b, t) == LET cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
                 IN IF t[1] = "l" THEN [b EXCEPT !.l = cut(@, t[2])] ELSE [b EXCEPT !.s = cut(@, t[2])]
\* the 2D points of a site, and how many became map points
FlatLocated(b, det, t, rej) ==
  IF det = "S" /\ t[1] # "-" /\ ~rej
  THEN [b |-> Located("flat", Without(b, t), "-", <<"-", 0>>, FALSE), up |-> 1]
  ELSE [b |-> Located("flat", b, det, t, rej), up |-> 0]

\* contents of a site (a set of possibilities) after a frame; a rejection is meaningful when a match was handed over
AfterPlanes(P, det, ok, lost, rej) ==
  IF ok THEN UNION {{Located("plane", b, det, t, rej) : t \in Takers(b, det)} : b \in P}
  ELSE {NotLocated("plane", b, det, lost) : b \in P}
\* a site of points: [p, f] its points and its 2D points
AfterPoints(P, det, ok, lost, rejp, rejf) ==
  IF ok THEN UNION {{LET x == FlatLocated(q.f, det, tf, rejf)
                         y == Located("point", q.p, det, tp, rejp)
                     IN [p |-> [y EXCEPT !.l = @ \o [i \in 1..x.up |-> 0]], f |-> x.b]
                     : tp \in Takers(q.p, det), tf \in Takers(q.f, det)} : q \in P}
  ELSE {[p |-> NotLocated("point", q.p, det, lost), f |-> NotLocated("flat", q.f, det, lost)] : q \in P}

\* what is handed to the pose estimation
HasLocal(b) == b.l # << >>
HasAny(b) == b.l # << >> \/ b.s # << >>
SeenSites(det) == {i \in DOMAIN det : det[i] # "-"}
SureLocal(P, det) == Cardinality({i \in SeenSites(det) : \A b \in P[i] : HasLocal(b)})
MaybeLocal(P, det) == Cardinality({i \in SeenSites(det) : \E b \in P[i] : HasLocal(b)})
\* sites that must be handed over, and sites that may
Must(kind, P, det) == {i \in SeenSites(det) : \A b \in P[i] : IF MaybeLocal(P, det) < 3 * Need(kind) THEN HasAny(b) ELSE HasLocal(b)}
May(kind, P, det) == {i \in SeenSites(det) : \E b \in P[i] : IF SureLocal(P, det) < 3 * Need(kind) THEN HasAny(b) ELSE HasLocal(b)}
=============================================================================
