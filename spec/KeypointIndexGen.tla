-------------------------- MODULE KeypointIndexGen --------------------------
(* Frames and searches for the real index: three frames in a row, searches in  *)
(* each, at positions around the borders of image, cells and search circle.    *)
EXTENDS KeypointIndex, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..440 |-> RV(n, Seed, k)]

\* image sizes in pixels: wide, tall, one cell, not a multiple of the cell size
Shapes == << <<155, 93>>, <<93, 155>>, <<31, 31>>, <<100, 40>>, <<40, 100>>, <<64, 48>> >>
\* coordinates in half pixels
Marks == << 0, 1, 2, 3, 20, 59, 60, 61, 62, 63, 64, 121, 122, 123, 124, 125, 126, 184, 186, 188, 245, 248, 308 >>
Ends == << 2, 3, 4, 60, 62 >>
Offsets == << -122, -120, -118, -62, -61, -60, -59, -44, -40, -20, -1, 0, 1, 20, 40, 44, 59, 60, 61, 62, 118, 120, 121 >>
Dist == << 0, 2, 4, 10, 11, 40, 100 >>
In(v, len) == IF v < 0 THEN 0 ELSE IF v > 2 * len - 2 THEN 2 * len - 2 ELSE v
Mark(k, len) == IF r[k] % 3 = 0 THEN 2 * len - PickSeq(r, k + 1, Ends) ELSE In(PickSeq(r, k + 1, Marks), len)
Place(k, s, p) == IF r[k] % 3 = 0 THEN [x |-> Mark(k + 1, s[1]), y |-> Mark(k + 3, s[2])]
                  ELSE [x |-> In(p.x + PickSeq(r, k + 1, Offsets), s[1]), y |-> In(p.y + PickSeq(r, k + 3, Offsets), s[2])]
\* a frame consumes 60 numbers, its queries 8 * 8
Frame(k, s, p) ==
  [det |-> [i \in 1..PickInt(r, k, 0, 6) |-> LET q == Place(k + 2 + 6 * i, s, p) IN [x |-> q.x, y |-> q.y, d |-> PickSeq(r, k + 7 + 6 * i, Dist)]],
   trk |-> [i \in 1..PickInt(r, k + 1, 0, 3) |-> LET q == Place(k + 40 + 6 * i, s, p) IN [id |-> PickInt(r, k + 45 + 6 * i, 0, 5), x |-> q.x, y |-> q.y]]]
Query(k, s, p, f) == [p |-> Place(k, s, p), R |-> PickSeq(r, k + 5, <<60, 60, 120, 120, 30, 62, 124, 125>>),
                      taken |-> IF r[k + 6] % 2 = 0 THEN << >> ELSE S2S(PickSub(r, k + 6, Count(f))), id |-> PickInt(r, k + 7, 0, 6)]
OneFrame(k, s, p) == LET f == Frame(k, s, p) IN [f |-> f, q |-> [i \in 1..8 |-> Query(k + 64 + 8 * i, s, p, f)]]
History == LET s == PickSeq(r, 1, Shapes)
               p == [x |-> Mark(2, s[1]), y |-> Mark(4, s[2])]
           IN [s |-> s, ratio |-> PickSeq(r, 6, <<5, 7>>), frames |-> [i \in 1..3 |-> OneFrame(10 + 140 * (i - 1), s, p)]]

Init == n = 0
Next == n < Num /\ n' = n + 1
Emit == CSVWrite("%1$s", <<ToJson(History)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_n
=============================================================================
