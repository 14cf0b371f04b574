------------------------------ MODULE ShapeGen ------------------------------
EXTENDS Shape, Rand, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..200 |-> RV(n, Seed, k)]
Quats == << <<1, 0, 0, 0>>, <<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, -1, 0>>, <<1, 1, 1, 1>>, <<2, 1, 0, 0>>, <<1, 0, 2, 0>>, <<1, 1, 1, 0>>, <<2, 0, 0, 1>>, <<1, -1, 0, 1>>, <<2, 1, 1, 1>>, <<1, 2, 0, -1>>, <<1, 2, 2, 0>> >>
Q(k) == PickSeq(r, k, Quats)
T(k, m) == <<PickInt(r, k, -m, m), PickInt(r, k + 1, -m, m), PickInt(r, k + 2, -m, m)>>
\* columns: each overlaps the one before
Height(k) == 1 + (r[k] % 3)
RECURSIVE Cols(_, _, _)
Cols(k, m, p) == IF m = 0 THEN << >> ELSE
  LET h == Height(k) lo == PickInt(r, k + 1, p[1] - h + 1, p[2] - 1) c == <<lo, lo + h>> IN <<c>> \o Cols(k + 2, m - 1, c)
Form(k) == LET h == Height(k) c == <<0, h>> IN <<c>> \o Cols(k + 1, r[k + 10] % 3, c)
Ring(a, s) == [i \in DOMAIN Outline(a) |-> <<s * Outline(a)[i][1], s * Outline(a)[i][2]>>]
Side == PickSeq(r, 90, <<100, 150, 150, 37, 250, 600>>)
\* columns of two by two cells
Double(a) == FlattenSeq([i \in DOMAIN a |-> << <<2 * a[i][1], 2 * a[i][2]>>, <<2 * a[i][1], 2 * a[i][2]>> >>])
Pair == LET a == TLCEval(Double(Form(1))) b == TLCEval(Double(Form(20))) IN
  [type |-> "pair", s |-> Side, q |-> Q(40), c |-> T(41, 300), a |-> a, b |-> b, ra |-> Ring(a, Side), rb |-> Ring(b, Side),
   k |-> r[44] % 4, flip |-> r[45] % 2, o |-> <<2 * PickInt(r, 46, -2, 3) + 1, 2 * PickInt(r, 47, -2, 3) + 1>>, h |-> PickSeq(r, 48, <<0, 0, 50, -400>>)]
Move == LET a == TLCEval(Form(1)) IN
  [type |-> "move", s |-> Side, q |-> Q(40), c |-> T(41, 300), a |-> a, ra |-> Ring(a, Side), Q |-> (IF r[49] % 8 = 0 THEN Q(40) ELSE Q(44)), C |-> (IF r[50] % 8 = 0 THEN T(41, 300) ELSE T(45, 300))]
\* points of a plane, some of them aligned or twice
Points(m) == [i \in 1..m |-> IF r[60 + 2 * i] % 9 = 0 THEN <<0, i>> ELSE <<PickInt(r, 60 + 2 * i, -9, 9), PickInt(r, 61 + 2 * i, -9, 9)>>]
Hull == [type |-> "hull", s |-> Side, q |-> Q(40), c |-> T(41, 300), pts |-> Points(PickInt(r, 50, 3, 16))]
Bump == [type |-> "bump", q |-> Q(40), c |-> T(41, 300), w |-> 2 * PickInt(r, 51, 100, 1000), h |-> PickInt(r, 52, 200, 2000), e |-> PickInt(r, 53, -60, 60)]
Case == LET t == r[200] % 11 IN IF t >= 10 THEN Bump ELSE IF t >= 8 THEN Hull ELSE IF t <= 3 THEN Pair ELSE Move
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
