------------------------------- MODULE SlamMC -------------------------------
(* The engine with one site of points, every history of frames.                *)
EXTENDS Slam
CONSTANTS Most, Deep
VARIABLES eng, site, fails, since, frames, out
vars == <<eng, site, fails, since, frames, out>>
Init == eng = Start /\ site = {[p |-> Empty, f |-> Empty]} /\ fails = 0 /\ since = 0 /\ frames = 0 /\ out = 0
Next == \E det \in {"S", "F", "-"}, good \in BOOLEAN, rej \in BOOLEAN :
  LET ok == good /\ ~eng.first
      new == AfterPoints(site, det, ok, eng.lost, rej, rej)
  IN \* one of the possible contents is the real one
     \E q \in new :
        /\ Len(q.p.l) + Len(q.p.s) + Len(q.f.l) + Len(q.f.s) <= Most
        /\ frames < Deep
        /\ site' = {q} /\ eng' = Engine(eng, ok) /\ frames' = frames + 1
        /\ fails' = IF eng.first \/ ok THEN 0 ELSE fails + 1
        /\ since' = IF Forced(eng) THEN 0 ELSE since + 1
        /\ out' = 0
Spec == Init /\ [][Next]_vars
\* lost exactly at the start and after more than three frames in a row without a pose
LostRight == eng.lost = (frames <= 1 \/ fails > LostAfterFails)
\* the whole image is searched at least every five frames, and always while lost
Refreshed == since < Refresh
\* a located frame never loses track, and nothing new is staged while not located and not lost
Content == CHOOSE q \in site : TRUE
NoStaging == [][(~eng.lost /\ fails' > 0) => Len((CHOOSE q \in site' : TRUE).p.s) <= Len(Content.p.s)]_vars
\* features leave the map only by being written (map points) or by becoming map points (2D points)
Kept == [][LET a == Content.p b == (CHOOSE q \in site' : TRUE).p IN Len(a.l) + a.w <= Len(b.l) + b.w]_vars
Sane == Content.p.w >= 0 /\ \A i \in 1..Len(Content.p.l) : ~PointLost(Content.p.l[i])
=============================================================================
