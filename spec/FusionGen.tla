------------------------------ MODULE FusionGen -----------------------------
EXTENDS Fusion, Rand, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..120 |-> RV(n, Seed, k)]
Mat(k, a, b, lo, hi) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> PickInt(r, k + b * (i - 1) + j, lo, hi)])])
Vec(k, a, lo, hi) == TLCEval([i \in 1..a |-> PickInt(r, k + i, lo, hi)])
\* positive matrices
Pos(k, a, s) == LET L == TLCEval([i \in 1..a |-> TLCEval([j \in 1..a |-> IF j > i THEN 0 ELSE IF i = j THEN PickInt(r, k + (a * i) + j, 1, s) ELSE PickInt(r, k + (a * i) + j, -1, s - 1)])])
                IN Prod(L, Trn(L))
Zero(a, b) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> 0])])
Sizes == << <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<3, 3>> >>
Kalman == LET sz == PickSeq(r, 1, Sizes) a == sz[1] b == sz[2] w == r[2] % 8 IN
  [type |-> "kalman", n |-> a, m |-> b, F |-> (IF r[3] % 3 = 0 \/ r[5] % 3 = 0 THEN Eye(a) ELSE Mat(3, a, a, -1, 2)), F2 |-> (IF r[5] % 3 = 0 THEN Eye(a) ELSE Mat(14, a, a, -1, 1)),
   H |-> (IF r[4] % 3 = 0 THEN TLCEval([i \in 1..b |-> TLCEval([j \in 1..a |-> IF i = j THEN 1 ELSE 0])]) ELSE Mat(24, b, a, -1, 1)),
   Q |-> (IF r[5] % 3 = 0 THEN Zero(a, a) ELSE Pos(34, a, 2)), P |-> (IF w = 1 THEN Zero(a, a) ELSE Pos(46, a, 2)), R |-> Pos(58, b, 2), R2 |-> Pos(70, b, 2),
   x |-> Vec(82, a, -20, 20), z |-> Vec(86, b, -20, 20), z2 |-> Vec(90, b, -20, 20), bad |-> PickInt(r, 94, 1, b)]
\* no uncertainty anywhere on some axes: the prediction stands
Certain == LET a == 2 + (r[1] % 2) dg(k) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..a |-> IF i # j THEN 0 ELSE PickInt(r, k + i, 0, 2)])]) IN
  [type |-> "certain", n |-> a, P |-> dg(2), R |-> dg(6), x |-> Vec(10, a, -20, 20), z |-> Vec(14, a, -20, 20)]
Still3 == [type |-> "still", x |-> Vec(1, 3, -300, 300), P |-> Pos(4, 3, 3), z |-> Vec(17, 3, -300, 300), R |-> Pos(20, 3, 3),
           z2 |-> Vec(33, 3, -300, 300), R2 |-> Pos(36, 3, 3), bad |-> PickInt(r, 50, 1, 3)]
Moving == [type |-> "moving", x |-> Vec(1, 3, -6, 6), z |-> Vec(4, 3, -6, 6), sd |-> Vec(7, 3, 1, 9)]
Dirs == << <<3, 4, 12, 5, 13>>, <<4, 3, 0, 5, 5>>, <<3, 0, 4, 3, 5>>, <<0, 4, 3, 4, 5>>, <<1, 0, 0, 1, 1>>, <<0, 1, 0, 1, 1>>, <<4, 3, 12, 5, 13>>, <<12, 0, 5, 12, 13>>, <<8, 6, 0, 10, 10>> >>
Dir(k) == LET d == PickSeq(r, k, Dirs) s(i) == IF (r[k + 1] \div (2 ^ i)) % 2 = 1 THEN -d[i] ELSE d[i] IN [m |-> <<s(1), s(2), s(3)>>, h |-> d[4], K |-> d[5]]
Inv == LET d == Dir(1) IN
  [type |-> "inv", m |-> d.m, h |-> d.h, K |-> d.K, s |-> PickInt(r, 3, 1, 20), o |-> Vec(4, 3, -50, 50), C |-> Pos(8, 6, 2), A |-> Pos(60, 3, 2), P |-> Pos(75, 3, 2),
   e |-> PickInt(r, 90, 1, 9), w |-> Vec(91, 3, -40, 40)]
Quats == << <<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, -1, 0, 0>>, <<2, 1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 1, 1, 1>>, <<2, 0, 0, 1>>, <<3, 1, -1, 0>>, <<0, 0, 1, 0>>, <<2, -1, 1, 1>> >>
Seen0 == [type |-> "seen", q |-> PickSeq(r, 1, Quats), t |-> Vec(2, 3, -100, 100), u |-> (IF r[5] % 4 = 0 THEN 310 ELSE PickInt(r, 6, 0, 640)),
         v |-> (IF r[7] % 4 = 0 THEN 250 ELSE PickInt(r, 8, 0, 480)), q2 |-> (IF r[9] % 2 = 0 THEN PickSeq(r, 1, Quats) ELSE PickSeq(r, 9, Quats)),
         t2 |-> (IF r[10] % 2 = 0 THEN Vec(2, 3, -100, 100) ELSE Vec(11, 3, -100, 100)), u2 |-> (IF r[15] % 4 = 0 THEN 310 ELSE PickInt(r, 16, 0, 640)), v2 |-> (IF r[17] % 4 = 0 THEN 250 ELSE PickInt(r, 18, 0, 480)),
         z |-> PickSeq(r, 19, <<500, 1000, 2000, 41, 6000, 3000, 0, 40, 6001>>), P |-> Pos(20, 3, 3), P2 |-> Pos(36, 3, 3), bad |-> PickInt(r, 50, 0, 5)]
\* straight above or below the first sight, where the azimuth is not defined
Up == [Seen0 EXCEPT !.q = Quats[2 + (r[51] % 2)], !.q2 = Quats[2 + (r[51] % 2)], !.u = 310, !.v = 250, !.u2 = 310, !.v2 = 250, !.t2 = Seen0.t]
Seen == IF r[52] % 6 = 0 THEN Up ELSE Seen0
\* planes: unit normals of rational coordinates, less than 25 degrees apart
Normals == << <<2, 3, 6, 7>>, <<1, 2, 2, 3>>, <<4, 4, 7, 9>>, <<2, 6, 9, 11>>, <<3, 4, 12, 13>> >>
Plane4 == LET a == PickSeq(r, 1, Normals) b == IF r[2] % 3 = 0 THEN a ELSE PickSeq(r, 3, Normals) IN
  [type |-> "plane", m1 |-> <<a[1], a[2], a[3]>>, K1 |-> a[4], m2 |-> <<b[1], b[2], b[3]>>, K2 |-> b[4], d |-> PickInt(r, 4, -3000, 3000), zd |-> PickInt(r, 5, -30, 30),
   p |-> PickInt(r, 6, 1, 40), rn |-> PickInt(r, 7, 1, 40), pd |-> PickInt(r, 8, 1, 40), rd |-> PickInt(r, 9, 1, 40), bad |-> PickInt(r, 10, 1, 4)]
Case == LET w == r[120] % 16 IN
        CASE w < 5 -> Kalman [] w = 5 -> Certain [] w \in 6..8 -> Still3 [] w = 9 -> Moving [] w \in 10..11 -> Inv [] w \in 12..13 -> Seen [] w \in 14..15 -> Plane4
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
