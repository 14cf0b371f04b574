--------------------------- MODULE FeatureMatchGen --------------------------
EXTENDS FeatureMatch, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..260 |-> RV(n, Seed, k)]
Units == << 1, 1, 7, 30, 100, 333 >>
Trans(k) == <<PickInt(r, k, -40, 40) * PickSeq(r, k + 3, Units), PickInt(r, k + 1, -40, 40) * PickSeq(r, k + 4, Units),
              PickInt(r, k + 2, -40, 40) * PickSeq(r, k + 5, Units)>>
Pose(k) == [R |-> Rot(r[k] % 24), t |-> Trans(k + 1)]
Offsets == << -121, -119, -61, -59, -43, -42, -20, -7, -6, -5, -3, -1, 0, 0, 0, 1, 2, 3, 4, 6, 7, 20, 42, 43, 59, 61, 84, 86, 119, 121, 400 >>
Bound(v, hi) == IF v < 0 THEN 0 ELSE IF v > hi THEN hi ELSE v
Near(k, p) == [x |-> Bound(p.x + PickSeq(r, k, Offsets), 1278), y |-> Bound(p.y + (IF r[k + 2] % 2 = 0 THEN 0 ELSE PickSeq(r, k + 1, Offsets)), 958)]
Frame(k, p) ==
  [det |-> [i \in 1..PickInt(r, k, 0, 5) |-> LET q == Near(k + 2 + 5 * i, p) IN [x |-> q.x, y |-> q.y, d |-> PickSeq(r, k + 6 + 5 * i, <<0, 2, 4, 10, 11, 40>>)]],
   trk |-> [i \in 1..PickInt(r, k + 1, 0, 2) |-> LET q == Near(k + 34 + 5 * i, p) IN [id |-> PickInt(r, k + 38 + 5 * i, 0, 4), x |-> q.x, y |-> q.y]]]
Taken(k, m) == IF r[k] % 2 = 0 THEN << >> ELSE S2S(PickSub(r, k + 1, m))
Views(k, pose1) == <<pose1>> \o [i \in 1..3 |-> IF r[k + 10 * i] % 2 = 0 THEN Pose(k + 10 * i + 1)
                                               ELSE [R |-> MM(pose1.R, Rot(r[k + 10 * i + 1] % 24)), t |-> pose1.t]]

\* a point seen from a first camera at (u, v), then searched from a second camera turned around the line of sight and
\* displaced so that it is seen on a half pixel again
\* rays: start (half pixels), depth, displacement step (half pixels, mm)
Depths == << 960, 1920, 2880, 3840, 5760 >>
Rays == << <<0, 0, 2000, 12, 25>>, <<280, 0, 1920, 1, 2>>, <<-280, 0, 1920, 1, 2>>, <<0, 280, 1920, 1, 2>>, <<0, -280, 1920, 1, 2>>,
           <<576, 432, 1600, 3, 5>>, <<-576, 432, 1600, 3, 5>>, <<576, -432, 1600, 3, 5>> >>
Steps == << 0, 0, 1, -1, 2, 5, -8, 20, 50, -90, 240 >>
PointLike(type) ==
  LET k == (r[6] % 5) + 1
      ray == PickSeq(r, 5, Rays)
      u == IF type = "point" THEN PickSeq(r, 2, <<-640, -639, -300, -5, 0, 3, 160, 333, 638, 639>>) ELSE ray[1]
      v == IF type = "point" THEN PickSeq(r, 3, <<-480, -479, -200, -4, 0, 9, 111, 320, 478, 479>>) ELSE ray[2]
      z == IF type = "point" THEN Depths[k] ELSE ray[3]
      c0 == <<(u * z) \div 960, (v * z) \div 960, z>>
      mm == IF type = "point" THEN z \div 960 ELSE ray[5]
      a == PickSeq(r, 7, Steps)
      b == PickSeq(r, 8, Steps)
      tau == IF type = "point" THEN <<a * mm, b * mm, 0>>
             ELSE IF r[9] % 2 = 0 THEN <<(IF a = 0 THEN 1 ELSE a) * mm, 0, 0>> ELSE <<0, (IF b = 0 THEN 1 ELSE b) * mm, 0>>
      disp == [R |-> Roll(r[10] % 4), t |-> tau]
      pose0 == Pose(11)
      pose1 == After(pose0, disp)
      p == Seen(Inside(disp, c0))
      f == Frame(40, p)
      again == PickSeq(r, 200, IF type = "point" THEN <<0, 0, 1, 1, 2>> ELSE <<0, 0, 2>>)
  IN [d0 |-> PickSeq(r, 201, <<0, 0, 4, 40>>), again |-> again, d1 |-> PickSeq(r, 202, <<-1, 0, 4, 10, 40>>), type |-> type, kind |-> r[1] % 2, pose0 |-> pose0, at |-> <<u + 640, v + 480, z>>, c0 |-> c0, disp |-> disp, pose1 |-> pose1,
      add |-> IF r[20] % 4 = 0 THEN 0 ELSE 1, wide |-> r[21] % 2, f |-> f, taken |-> Taken(100, Count(f)), views |-> Views(110, pose1)]

Span(k) == LET a == PickInt(r, k, -12, 8) IN <<100 * a, 100 * (a + PickInt(r, k + 1, 2, 10))>>
Rect(k, D) == LET sx == Span(k) sy == Span(k + 2) IN [D |-> D, x1 |-> sx[1], x2 |-> sx[2], y1 |-> sy[1], y2 |-> sy[2]]
Det(k, near, D, alone) ==
  LET e == PickSeq(r, k, <<0, 0, 0, 0, 30, -40, 51, 99, -99, 101, -101, 300>>)
      q == IF r[k + 1] % 3 = 0 THEN Rect(k + 2, D + e)
           ELSE [D |-> D + e, x1 |-> near.x1 + 100 * PickInt(r, k + 2, -3, 4), x2 |-> near.x2 + 100 * PickInt(r, k + 3, -4, 5),
                 y1 |-> near.y1 + 100 * PickInt(r, k + 4, -2, 4), y2 |-> near.y2 + 100 * PickInt(r, k + 5, -4, 3)]
      t == IF alone THEN PickSeq(r, k + 6, << <<0, 1, 1>>, <<7, 24, 25>>, <<5, 12, 13>>, <<3, 4, 5>> >>) ELSE <<0, 1, 1>>
      w == IF q.x2 > q.x1 /\ q.y2 > q.y1 THEN q ELSE [q EXCEPT !.x1 = near.x1, !.x2 = near.x2, !.y1 = near.y1, !.y2 = near.y2]
      \* tilted ones cover the middle of the searched plane
      m == IF t[1] = 0 THEN w ELSE [D |-> (t[3] * (D + e) - t[1] * ((near.x1 + near.x2) \div 2)) \div t[2],
               x1 |-> near.x1 + 100, x2 |-> near.x2 - 100, y1 |-> near.y1 + 100, y2 |-> near.y2 - 100]
      ok == m.x2 > m.x1 + (IF t[1] = 0 THEN 0 ELSE 300) /\ m.y2 > m.y1 /\ m.D > (IF t[1] = 0 THEN 500 ELSE 1400) /\ m.D < 5000
      z == IF ok THEN m ELSE [D |-> D, x1 |-> near.x1, x2 |-> near.x2, y1 |-> near.y1, y2 |-> near.y2]
  IN [D |-> z.D, x1 |-> z.x1, x2 |-> z.x2, y1 |-> z.y1, y2 |-> z.y2, s |-> IF ok THEN t[1] ELSE 0, c |-> IF ok THEN t[2] ELSE 1, n |-> IF ok THEN t[3] ELSE 1]
Tilts == << <<0, 0, -1, 1>>, <<0, 0, -1, 1>>, <<20, 0, -99, 101>>, <<0, -20, -99, 101>>, <<9, 0, -40, 41>>, <<0, 9, -40, 41>>, <<0, 0, 1, 1>>, <<-7, 0, -24, 25>> >>
PlaneCase ==
  LET rect == Rect(2, PickSeq(r, 6, <<1500, 2000, 3000>>))
      \* mostly a turn around the line of sight; or looking elsewhere
      disp == [R |-> IF r[7] % 4 # 0 THEN Roll(r[8] % 4) ELSE Rot(r[8] % 24),
               t |-> <<100 * PickInt(r, 9, -6, 6), 100 * PickInt(r, 10, -6, 6), PickSeq(r, 11, <<0, 0, 100, -250, 700>>)>>]
      q == Pose(12)
      \* (planes through the origin of the world cannot be represented)
      pose0 == IF ToCam(q, <<0, 0, 0>>)[3] = rect.D THEN After(q, [R |-> I3, t |-> <<0, 0, 7>>]) ELSE q
      pose1 == After(pose0, disp)
      near == Rect1(rect, disp)
      m == PickInt(r, 20, 0, 4)
      D == Dist1(rect, disp)
      dets == [i \in 1..m |-> Det(30 + 8 * i, IF Facing(disp) THEN near ELSE rect, D, m = 1)]
  IN [type |-> "plane", kind |-> r[1] % 2, pose0 |-> pose0, rect |-> rect, disp |-> disp, pose1 |-> pose1,
      add |-> IF r[21] % 4 = 0 THEN 0 ELSE 1, wide |-> r[22] % 2, dets |-> dets, taken |-> Taken(100, m),
      vdisp |-> <<disp>> \o [i \in 1..4 |-> [R |-> IF r[110 + 7 * i] % 2 = 0 THEN Roll(r[111 + 7 * i] % 4) ELSE MM(Face(2), Roll(r[111 + 7 * i] % 4)),
                                               t |-> <<100 * PickInt(r, 112 + 7 * i, -40, 40), 100 * PickInt(r, 113 + 7 * i, -30, 30), PickSeq(r, 114 + 7 * i, <<0, 100, -1000, 1000, 4000>>)>>]],
      agree |-> [i \in 1..3 |-> LET t == PickSeq(r, 150 + 3 * i, Tilts) IN [t |-> t, d |-> D + PickSeq(r, 151 + 3 * i, <<0, 0, 49, -49, 51, -51>>)]]]

Case == CASE n % 3 = 0 -> PointLike("point") [] n % 3 = 1 -> PointLike("flat") [] n % 3 = 2 -> PlaneCase
Init == n = 0
Next == n < Num /\ n' = n + 1
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_n
=============================================================================
