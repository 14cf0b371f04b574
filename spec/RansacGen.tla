------------------------------ MODULE RansacGen -----------------------------
(* Test cases for the real search: weights, hypotheses and schedules.  A      *)
(* schedule is a list of segments <<worker, points>>: run the worker until it  *)
(* has passed that many scheduling points.                                     *)
EXTENDS Ransac, TLC, Json, CSV, IOUtils

CONSTANTS Points, Kind, Step
VARIABLES c

RECURSIVE S2S(_)
S2S(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o S2S(T \ {x})

\* pairs of hypotheses worth racing: different weight, equal weight but different size, equal, unusable, near unanimous
Races == { [w |-> <<100, 100, 100>>, H |-> << {0}, {0, 1} >>],
           [w |-> <<100, 100, 100>>, H |-> << {0, 1}, {2} >>],
           [w |-> <<200, 100, 100>>, H |-> << {0}, {1, 2} >>],
           [w |-> <<200, 100, 100>>, H |-> << {1, 2}, {0} >>],
           [w |-> <<100, 100, 100>>, H |-> << {0, 1, 2}, {0} >>],
           [w |-> <<50, 50, 100>>,   H |-> << {0}, {0, 1} >>] }
Cuts == {x \in 0..Points : x % Step = 0}
Two == {[r |-> r, seg |-> << <<0, a>>, <<1, b>>, <<0, 10000>>, <<1, 10000>> >>] : r \in Races, a \in Cuts, b \in Cuts}
       \cup {[r |-> r, seg |-> << <<0, a>>, <<1, 10000>>, <<0, b>>, <<1, 10000>> >>] : r \in Races, a \in 0..Points, b \in {10000}}
\* three workers, every order of their two halves (before / after their first lock or shared access)
Perm3 == {s \in [1..6 -> 0..2] : \A t \in 0..2 : Cardinality({i \in 1..6 : s[i] = t}) = 2}
Tri == { << {0}, {1, 2}, {0, 1, 2} >>, << {0, 1, 2}, {1}, {0, 2} >>, << {1}, {0, 1}, {2} >> }
Three == {[r |-> [w |-> <<100, 100, 100>>, H |-> h],
           seg |-> [i \in 1..6 |-> << s[i], IF \E j \in 1..(i-1) : s[j] = s[i] THEN 10000 ELSE cut >>]]
            : h \in Tri, s \in Perm3, cut \in {1, 3}}
\* sequential: many weights and hypothesis sets
Plain == {[r |-> [w |-> ww, H |-> hh], seg |-> << >>] :
         ww \in {<<100, 100, 100, 100>>, <<20, 20, 20, 20>>, <<50, 50, 50, 50>>, <<40, 40, 30, 30>>, <<200, 100, 50, 50>>},
         hh \in { << A, B, C >> : A \in SUBSET {0, 1}, B \in {{}, {1, 2}, {0, 1, 2, 3}, {3}}, C \in {{}, {2, 3}, {0, 3}, {1, 2, 3}} }}

\* scores close to each other: the lighter one with more matches is a tie the search may take within a tenth, left out here
Of(A, ww) == Weight({m + 1 : m \in A}, ww)
Tie(A, B, ww) == Of(A, ww) < Of(B, ww) /\ Of(B, ww) - Of(A, ww) <= 11 /\ Cardinality(A) > Cardinality(B)
Near == {x \in {[r |-> [w |-> ww, H |-> <<A, B>>], seg |-> << >>] :
                 ww \in {<<60, 60, 133, 20>>, <<15, 100, 113, 30>>, <<100, 33, 33, 33>>},
                 A \in SUBSET (0..3) \ {{}}, B \in SUBSET (0..3) \ {{}}} :
           ~Tie(x.r.H[1], x.r.H[2], x.r.w) /\ ~Tie(x.r.H[2], x.r.H[1], x.r.w)}
\* many matches
Wide == {[r |-> [w |-> [m \in 1..n |-> 25], H |-> << 0..a, b..(n - 1) >>], seg |-> << >>] : n \in {6, 11, 12, 15}, a \in 0..14, b \in 0..14}
Many == {x \in Wide : \A h \in 1..2 : x.r.H[h] # {} /\ x.r.H[h] \subseteq 0..(Len(x.r.w) - 1)}

Cases == IF Kind = "two" THEN Two ELSE IF Kind = "three" THEN Three ELSE IF Kind = "near" THEN Near
         ELSE IF Kind = "many" THEN Many ELSE Plain

Init == c \in Cases
Next == FALSE /\ UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson([w |-> c.r.w, H |-> [i \in DOMAIN c.r.H |-> S2S(c.r.H[i])], seg |-> c.seg])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
