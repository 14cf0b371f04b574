------------------------------ MODULE FramesGen -----------------------------
EXTENDS Frames, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..60 |-> RV(n, Seed, k)]
Quat(k) == LET q == <<PickInt(r, k, -2, 2), PickInt(r, k + 1, -2, 2), PickInt(r, k + 2, -2, 2), PickInt(r, k + 3, -2, 2)>>
           IN IF Norm(q) = 0 THEN <<1, 0, 0, 0>> ELSE q
Units == << 1, 1, 7, 30, 100 >>
Vec(k) == <<PickInt(r, k, -40, 40) * PickSeq(r, k + 3, Units), PickInt(r, k + 1, -40, 40) * PickSeq(r, k + 4, Units),
            PickInt(r, k + 2, -40, 40) * PickSeq(r, k + 5, Units)>>
\* integer vectors of integer length
Triples == << <<0, 0, 1>>, <<1, 2, 2>>, <<2, 3, 6>>, <<4, 4, 7>>, <<1, 4, 8>>, <<0, 3, 4>> >>
Lengths == << 1, 3, 7, 9, 9, 5 >>
Turned(v, a, b) == LET s(i, x) == IF (a \div (2 ^ i)) % 2 = 1 THEN -x ELSE x
                       w == <<s(0, v[1]), s(1, v[2]), s(2, v[3])>>
                   IN CASE b % 6 = 0 -> w [] b % 6 = 1 -> <<w[2], w[3], w[1]>> [] b % 6 = 2 -> <<w[3], w[1], w[2]>>
                        [] b % 6 = 3 -> <<w[2], w[1], w[3]>> [] b % 6 = 4 -> <<w[1], w[3], w[2]>> [] b % 6 = 5 -> <<w[3], w[2], w[1]>>
Unit(k) == LET i == 1 + (r[k] % 6) IN [m |-> Turned(Triples[i], r[k + 1], r[k + 2]), K |-> Lengths[i]]
Us == << -320, -1, 0, 1, 2, 100, 309, 310, 311, 479, 480, 481, 639, 640, 641, 900 >>
Zs == << -1440, 1, 39, 40, 41, 100, 1440, 2880, 5760, 5999, 6000, 6001, 7200 >>
Point ==
  LET q == Quat(1)
      t == Vec(5)
      c == IF r[11] % 3 = 0 THEN Vec(12) ELSE <<PickInt(r, 12, -330, 330) * PickInt(r, 13, 0, 5), PickInt(r, 14, -330, 330) * PickInt(r, 15, 0, 5), PickInt(r, 16, 1, 2400)>>
      w == IF r[18] % 2 = 0 THEN Vec(19) ELSE Add(Position(t), Vec(19))
      zs == CameraOf(q, t, w)[3]
  IN [type |-> "point", q |-> q, t |-> t, c |-> c, w |-> w, zs |-> zs, u |-> PickSeq(r, 30, Us), v |-> PickSeq(r, 31, Us),
      z |-> PickSeq(r, 32, Zs)]
Plane ==
  LET a == Unit(40) b == Unit(43) IN
  [type |-> "plane", q |-> Quat(1), t |-> <<PickInt(r, 5, -1200, 1200), PickInt(r, 6, -1200, 1200), PickInt(r, 7, -1200, 1200)>>, m1 |-> a.m, K1 |-> a.K, d1 |-> PickInt(r, 46, -2000, 2000),
   m2 |-> b.m, K2 |-> b.K, d2 |-> PickInt(r, 47, -2000, 2000), p |-> Vec(19)]
Case == IF r[60] % 5 < 3 THEN Point ELSE Plane
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
