--------------------------- MODULE FeatureLifeTrace -------------------------
EXTENDS FeatureLife, Conf
VARIABLE k
\* obs: after each frame <<staged, in the map, written>>
RECURSIVE Follow(_, _, _, _)
Follow(r, st, i, ok) ==
  IF i > Len(r.word) \/ ~ok THEN ok
  ELSE LET t == After(r.kind, st, r.word[i])
           o == r.obs[i]
       IN Follow(r, t, i + 1,
            /\ Check("a " \o r.kind \o " is in the wrong part of the map after frame " \o ToString(i),
                     o[1] = (IF t.w = "staged" THEN 1 ELSE 0) /\ o[2] = (IF t.w = "local" THEN 1 ELSE 0))
            /\ Check("a lost " \o r.kind \o " was not written exactly once (frame " \o ToString(i) \o ")", o[3] = t.wr)
            /\ Check("a lost " \o r.kind \o " was written at the wrong place", o[4] = 1))
Init == k = 1
Next == k <= Len(Trace) /\ Follow(Trace[k], None, 1, TRUE) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
