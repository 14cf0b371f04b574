------------------------------ MODULE PlanesGen -------------------------------
EXTENDS Planes, Rand, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..300 |-> RV(n, Seed, k)]
Steep == << <<0, -1, -1>>, <<-1, 0, -1>>, <<1, 0, -1>>, <<0, 1, -1>> >>
Flat(g) == IF g % 3 = 0 THEN <<-1, -5, -20>> ELSE <<0, 0, -1>>
Normal(k, g) == IF r[k] % 2 = 0 THEN Flat(g) ELSE PickSeq(r, k + 1, Steep)
Surf(k, g) == LET kind == PickSeq(r, k, <<1, 1, 1, 1, 1, 1, 1, 0, 0, 2>>) IN <<kind, Normal(k + 1, g), PickSeq(r, k + 3, <<400, 550, 700, 850, 1000>>)>>
Rect(k, g, old) == LET w == PickSeq(r, k, <<1, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16, 24, 32>>) h == PickSeq(r, k + 1, <<1, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16, 24>>) IN
  [x |-> PickInt(r, k + 2, 0, 32 - w), y |-> PickInt(r, k + 3, 0, 24 - h), w |-> w, h |-> h, s |-> (IF r[k + 4] % 3 = 0 THEN old ELSE Surf(k + 5, g))]
Frame(k, g) == LET b == Surf(k, g) m == r[k + 9] % 5 IN [bg |-> b, rects |-> [i \in 1..m |-> Rect(k + 12 * i, g, b)]]
Scene == [type |-> "scene", fr |-> [i \in 1..2 |-> Frame(70 * i - 60, r[5] + i)]]
Quats == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<3, 1, 0, 0>>, <<3, 0, 1, 0>>, <<3, 1, 1, 0>>, <<2, 1, 0, 0>>, <<2, 0, -1, 0>>, <<3, -1, 1, 1>>, <<1, 3, 0, 0>>, <<1, 1, 3, 1>>, <<5, 1, -2, 1>>, <<2, 0, 0, 1>>, <<2, 1, -1, 0>> >>
Q == PickSeq(r, 2, Quats)
Pos(k) == <<PickInt(r, k, -400, 400), PickInt(r, k + 1, -300, 300), PickInt(r, k + 2, 800, 1600)>>
Patch == [type |-> "patch", q |-> Q, c |-> Pos(10), step |-> PickInt(r, 13, 2, 4), e |-> PickSeq(r, 14, <<1, 2, 2, 24>>), blank |-> PickSeq(r, 15, <<0, 0, 0, 3, 5, 6, 7, 8, 9, 12>>),
          quiet |-> r[16] % 2, jump |-> PickSeq(r, 17, <<0, 0, 0, 0, 90>>)]
Merge == LET m == PickInt(r, 20, 1, 6) IN [type |-> "merge", q |-> Q, c |-> Pos(10), at |-> [i \in 1..m |-> <<PickInt(r, 20 + 2 * i, -2, 2), PickInt(r, 21 + 2 * i, -2, 2)>>]]
Angles == << <<0, 1, 1>>, <<0, 1, 1>>, <<3, 4, 5>>, <<5, 12, 13>>, <<-5, 12, 13>>, <<7, 24, 25>>, <<-7, 24, 25>>, <<8, 15, 17>>, <<12, 35, 37>>, <<-12, 35, 37>>, <<9, 40, 41>>, <<11, 60, 61>> >>
Join == [type |-> "join", q |-> Q, c |-> Pos(10), a |-> PickSeq(r, 13, Angles), m |-> <<PickInt(r, 14, -80, 80), PickInt(r, 15, -80, 80), PickSeq(r, 16, <<0, 0, 5, -5, 20, -20, 40, -60>>)>>, lim |-> PickSeq(r, 17, <<10, 30, 50, 50>>)]
Hist == LET m == PickInt(r, 6, 1, 30) IN [type |-> "hist", pts |-> [i \in 1..m |-> <<PickInt(r, 10 + i, -1, 3), PickInt(r, 50 + i, 0, 2) * 9>>],
         ops |-> [i \in 1..(r[7] % 40) |-> PickInt(r, 100 + i, 1, m)]]
Case == LET t == r[1] % 10 IN IF t <= 3 THEN Scene ELSE IF t <= 5 THEN Patch ELSE IF t = 6 THEN Merge ELSE IF t <= 8 THEN Join ELSE Hist
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
================================================================================
