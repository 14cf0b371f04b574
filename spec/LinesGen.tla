------------------------------ MODULE LinesGen ------------------------------
EXTENDS Lines, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..60 |-> RV(n, Seed, k)]
Quat(k) == LET q == <<PickInt(r, k, -2, 2), PickInt(r, k + 1, -2, 2), PickInt(r, k + 2, -2, 2), PickInt(r, k + 3, -2, 2)>>
           IN IF Norm(q) = 0 THEN <<1, 0, 0, 0>> ELSE q
Small(k, m) == <<PickInt(r, k, -m, m), PickInt(r, k + 1, -m, m), PickInt(r, k + 2, -m, m)>>
Triples == << <<0, 0, 1>>, <<1, 2, 2>>, <<2, 3, 6>>, <<4, 4, 7>>, <<1, 4, 8>>, <<0, 3, 4>> >>
Lengths == << 1, 3, 7, 9, 9, 5 >>
Sg(v, a) == LET s(i, x) == IF (a \div (2 ^ i)) % 2 = 1 THEN -x ELSE x IN <<s(0, v[1]), s(1, v[2]), s(2, v[3])>>
Turned(v, a, b) == LET w == Sg(v, a)
                   IN CASE b % 6 = 0 -> w [] b % 6 = 1 -> <<w[2], w[3], w[1]>> [] b % 6 = 2 -> <<w[3], w[1], w[2]>>
                        [] b % 6 = 3 -> <<w[2], w[1], w[3]>> [] b % 6 = 4 -> <<w[1], w[3], w[2]>> [] b % 6 = 5 -> <<w[3], w[2], w[1]>>
Unit(k) == LET i == 1 + (r[k] % 6) IN [m |-> Turned(Triples[i], r[k + 1], r[k + 2]), K |-> Lengths[i]]
\* pixels whose direction has integer length: du, dv, direction, length
Rays == << <<0, 0, <<0, 0, 1>>, 1>>, <<240, 360, <<1, 2, 2>>, 3>>, <<160, 180, <<2, 3, 6>>, 7>>, <<240, 120, <<3, 2, 6>>, 7>>,
           <<60, 180, <<1, 4, 8>>, 9>>, <<240, 45, <<4, 1, 8>>, 9>>, <<120, 120, <<3, 4, 12>>, 13>>, <<160, 90, <<4, 3, 12>>, 13>>,
           <<0, 270, <<0, 3, 4>>, 5>>, <<360, 0, <<3, 0, 4>>, 5>> >>
Ray == LET y == PickSeq(r, 1, Rays)
           s1 == IF r[2] % 2 = 0 THEN 1 ELSE -1
           s2 == IF r[3] % 2 = 0 THEN 1 ELSE -1
       IN [type |-> "ray", q |-> Quat(5), t |-> Small(9, 4000), u |-> Cx + s1 * y[1], v |-> Cy + s2 * y[2],
           m |-> <<s1 * y[3][1], s2 * y[3][2], y[3][3]>>, K |-> y[4], depth |-> PickInt(r, 12, 1, 300)]
Cart == LET a == Unit(20) o == Small(9, 300) q == Quat(5) t == Small(13, 300) s == PickInt(r, 16, 1, 400) j == PickInt(r, 17, 0, 5)
        IN [type |-> "cart", q |-> q, t |-> t, o |-> o, m |-> a.m, K |-> a.K, s |-> s, j |-> j,
            zf |-> CameraScaled(q, t, FarAt(o, a.m, s, j), Deviations - 3 * j)[3],
            zn |-> CameraScaled(q, t, NearAt(o, a.m, s, j), Deviations + 3 * j)[3]]
Pair == LET a == Unit(20) b == Unit(23) IN
        [type |-> "pair", o1 |-> Small(1, 40), m1 |-> a.m, K1 |-> a.K, o2 |-> Small(4, 40), m2 |-> (IF r[7] % 6 = 0 THEN a.m ELSE b.m), K2 |-> (IF r[7] % 6 = 0 THEN a.K ELSE b.K)]
Close == LET d == 2 + (r[1] % 2) IN
        [type |-> "close", a |-> [i \in 1..d |-> PickInt(r, 1 + i, -300, 300)], b |-> [i \in 1..d |-> PickInt(r, 5 + i, -300, 300)],
         p |-> [i \in 1..d |-> PickInt(r, 9 + i, -300, 300)]]
Xs == << -300, -40, 0, 1, 2, 100, 300, 400, 637, 638, 639, 640, 680, 700 >>
Ys == << -300, -30, 0, 1, 2, 77, 200, 300, 477, 478, 479, 480, 500, 600 >>
Clamp == LET px(k) == IF r[k + 2] % 3 = 0 THEN PickInt(r, k, -300, 900) ELSE PickSeq(r, k, Xs)
             py(k) == IF r[k + 2] % 3 = 0 THEN PickInt(r, k + 1, -300, 700) ELSE PickSeq(r, k + 1, Ys)
             a == <<px(1), py(1)>>
             b == <<px(4), py(4)>>
         IN [type |-> "clamp", a |-> a, b |-> b, s |-> ClipScale(a, b)]
Case == CASE r[60] % 8 = 0 -> Ray [] r[60] % 8 \in {1, 2} -> Cart [] r[60] % 8 = 3 -> Pair [] r[60] % 8 = 4 -> Close [] OTHER -> Clamp
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
