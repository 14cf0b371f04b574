--------------------------- MODULE UncertaintyGen ---------------------------
EXTENDS Uncertainty, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..80 |-> RV(n, Seed, k)]
Quat(k) == LET q == <<PickInt(r, k, -2, 2), PickInt(r, k + 1, -2, 2), PickInt(r, k + 2, -2, 2), PickInt(r, k + 3, -2, 2)>>
           IN IF Norm(q) = 0 THEN <<1, 0, 0, 0>> ELSE q
\* positive matrices
Low(k, s) == << <<PickInt(r, k, 1, s), 0, 0>>, <<PickInt(r, k + 1, -s, s), PickInt(r, k + 2, 1, s), 0>>, <<PickInt(r, k + 3, -s, s), PickInt(r, k + 4, -s, s), PickInt(r, k + 5, 1, s)>> >>
Pos(k, s) == LET l == Low(k, s) IN MM(l, Tr(l))
Rnd(k, s) == Sym(<<PickInt(r, k, 0, s), PickInt(r, k + 1, -s, s), PickInt(r, k + 2, -s, s), PickInt(r, k + 3, 0, s), PickInt(r, k + 4, -s, s), PickInt(r, k + 5, -1, s)>>)
Triples == << <<0, 0, 1>>, <<1, 2, 2>>, <<2, 3, 6>>, <<4, 4, 7>>, <<0, 3, 4>> >>
Lengths == << 1, 3, 7, 9, 5 >>
Turned(v, a, b) == LET s(i, x) == IF (a \div (2 ^ i)) % 2 = 1 THEN -x ELSE x
                       w == <<s(0, v[1]), s(1, v[2]), s(2, v[3])>>
                   IN CASE b % 3 = 0 -> w [] b % 3 = 1 -> <<w[2], w[3], w[1]>> [] b % 3 = 2 -> <<w[3], w[1], w[2]>>
Unit(k) == LET i == 1 + (r[k] % 5) IN [m |-> Turned(Triples[i], r[k + 1], r[k + 2]), K |-> Lengths[i]]
Move == [type |-> "move", q |-> Quat(1), C |-> Pos(5, 3), P |-> Pos(11, 2), D |-> Pos(17, 2)]
Pixel == [type |-> "pixel", a |-> PickInt(r, 1, -3, 3), b |-> PickInt(r, 2, -3, 3), k |-> PickInt(r, 3, 1, 3), C |-> Pos(5, 3),
          i |-> PickInt(r, 4, -7, 8), j |-> PickInt(r, 20, -8, 7), z |-> PickInt(r, 21, 1, 49), e |-> <<PickInt(r, 22, 1, 9), PickInt(r, 23, 1, 9), PickInt(r, 24, 1, 20)>>,
          q |-> Quat(30), P |-> Pos(40, 3)]
Valid == [type |-> "valid", A |-> (IF r[1] % 3 = 0 THEN Pos(5, 3) ELSE Rnd(5, 4)), B |-> (IF r[2] % 3 = 0 THEN Rnd(11, 4) ELSE Pos(11, 3)),
          x |-> PickInt(r, 20, 1, 3), y |-> PickInt(r, 21, 1, 3), by |-> PickInt(r, 22, 1, 3)]
\* a rotation by right angles is enough for planes: q of norm 1, 2 or 4
Square == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 1, 0, 0>>, <<1, -1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 0, 0, -1>>,
             <<0, 1, 1, 0>>, <<1, 1, 1, 1>>, <<1, -1, 1, 1>>, <<1, 1, -1, -1>> >>
Plane == LET u == Unit(1) s == (r[9] % 2 = 0) IN
         [type |-> "plane", m |-> u.m, K |-> u.K, d |-> (IF s THEN -1 ELSE 1) * PickInt(r, 10, 1, 12), C |-> Pos(11, 2), F |-> Pos(17, 2),
          v |-> PickInt(r, 24, 1, 5)]
World == LET i == 1 + (r[1] % 2) IN
         [type |-> "world", m |-> Turned(Triples[i], r[2], r[3]), K |-> Lengths[i], d |-> (IF r[9] % 2 = 0 THEN -1 ELSE 1) * PickInt(r, 10, 1, 6),
          C |-> Pos(11, 1), v |-> PickInt(r, 24, 1, 3), P |-> Pos(17, 1), q |-> PickSeq(r, 30, Square),
          t |-> <<PickInt(r, 31, -9, 9), PickInt(r, 32, -9, 9), PickInt(r, 33, -9, 9)>>]
Depth == [type |-> "depth", z |-> PickInt(r, 1, 41, 6000), w |-> PickInt(r, 2, 41, 6000), out |-> PickSeq(r, 3, <<0, 1, 40, 6001, 9000>>), u |-> PickInt(r, 4, 0, 640), y |-> PickInt(r, 5, 0, 480)]
Case == CASE r[80] % 8 \in {0, 1} -> Move [] r[80] % 8 = 2 -> Pixel [] r[80] % 8 = 3 -> Plane [] r[80] % 8 = 4 -> World [] r[80] % 8 = 5 -> Depth [] OTHER -> Valid
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
