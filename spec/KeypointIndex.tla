---------------------------- MODULE KeypointIndex ---------------------------
(* The detected points of one frame, as a searchable set.                     *)
(* Lengths are in half pixels.  A frame is                                     *)
(*   [det |-> << [x, y, d] >>, trk |-> << [id, x, y] >>]                       *)
(* det: detections with a descriptor at distance d from the searched one;      *)
(* trk: points followed from the last frame, with the identity they carry.     *)
(* Indexes 1..Len(det) are detections, the following ones are tracked points.  *)
EXTENDS Integers, Sequences, FiniteSets

Count(f) == Len(f.det) + Len(f.trk)
D2(a, b) == (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)

\* detections that may be given to a map point seen at p, within radius R
Candidates(f, p, R, taken) == {i \in 1..Len(f.det) : i \notin taken /\ D2(f.det[i], p) <= R * R}
\* the closest descriptor, when it is clearly better than the second one (ratio in tenths)
Clear(f, C, i, ratio) == \A j \in C \ {i} : 10 * f.det[i].d < ratio * f.det[j].d
Answer(f, p, R, taken, ratio) == LET C == Candidates(f, p, R, taken) IN {i \in C : Clear(f, C, i, ratio)}

\* a tracked point keeps its identity
Tracked(f, id) == {i \in 1..Len(f.trk) : f.trk[i].id = id}
TrackAnswer(f, id, taken) ==
  IF id = 0 \/ Tracked(f, id) = {} THEN {}
  ELSE LET i == CHOOSE a \in Tracked(f, id) : \A b \in Tracked(f, id) : b <= a IN {Len(f.det) + i} \ taken

-----------------------------------------------------------------------------
(* The same search through square cells of side R0 + 2 (one pixel more than    *)
(* the normal radius R0): only the cells up to `reach` away are visited.       *)
Cell(v, side, n) == LET c == v \div side IN IF c > n - 1 THEN n - 1 ELSE c
CeilDiv(a, b) == (a + b - 1) \div b
GridCandidates(f, p, R, taken, side, nx, ny) ==
  LET reach == CeilDiv(R, side)
      near(a, b, n) == Cell(a, side, n) - Cell(b, side, n) \in (-reach)..reach
  IN {i \in 1..Len(f.det) : near(f.det[i].x, p.x, nx) /\ near(f.det[i].y, p.y, ny)
                             /\ i \notin taken /\ D2(f.det[i], p) <= R * R}
=============================================================================
