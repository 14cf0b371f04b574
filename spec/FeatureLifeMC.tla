---------------------------- MODULE FeatureLifeMC ---------------------------
(* All lives, with counters bounded for the exploration only.                  *)
EXTENDS FeatureLife
CONSTANTS Bound
VARIABLES kind, st, miss, hit, ev
vars == <<kind, st, miss, hit, ev>>
Events == {"S", "F", "A", "O", "N"}
Init == kind \in Kinds /\ st = None /\ miss = 0 /\ hit = 0 /\ ev = "A"
Next == /\ ev' \in Events /\ kind' = kind
        /\ st' = After(kind, st, ev')
        /\ miss' = IF Seen(ev') \/ st'.w = "none" THEN 0 ELSE miss + 1
        /\ hit' = IF st'.w = "none" \/ ~Seen(ev') THEN 0 ELSE IF st.w = "none" THEN 0 ELSE hit + 1
Spec == Init /\ [][Next]_vars
Small == st.s <= Bound /\ st.s >= 0 - Bound
\* a feature enters the map only after more sightings than misses
EntersLate == [][(st.w # "local" /\ st'.w = "local") => st.w = "staged" /\ st'.s >= 3 /\ Seen(ev')]_vars
\* a map feature disappears only after an uninterrupted run of missed frames, and is then written (once)
LeavesLate == [][(st.w = "local" /\ st'.w # "local") => /\ st'.w = "none" /\ ~Seen(ev')
                                                        /\ miss + 1 >= (IF kind = "plane" THEN 10 ELSE 11)
                                                        /\ st'.wr = Written(kind)]_vars
WrittenOnlyThen == [][st'.wr # 0 => st.w = "local" /\ st'.w = "none"]_vars
\* an unconfirmed feature does not survive a run of misses
StagedBounded == st.w = "staged" => miss <= (IF kind = "plane" THEN 1 ELSE 2)
CountersAgree == st.w = "local" => st.f = miss
=============================================================================
