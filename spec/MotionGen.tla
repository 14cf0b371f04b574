------------------------------ MODULE MotionGen -----------------------------
EXTENDS Motion, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..120 |-> RV(n, Seed, k)]
Quat(k) == LET q == <<PickInt(r, k, -2, 2), PickInt(r, k + 1, -2, 2), PickInt(r, k + 2, -2, 2), PickInt(r, k + 3, -2, 2)>>
           IN IF q = <<0, 0, 0, 0>> THEN <<1, 0, 0, 0>> ELSE q
Axis(k) == LET m == PickSeq(r, k, << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<2, 3, 6>>, <<0, -3, 4>> >>) IN m
\* operation i: poses wander around, sometimes still; resets now and then
Vec(k, s) == <<PickInt(r, k, -s, s), PickInt(r, k + 1, -s, s), PickInt(r, k + 2, -s, s)>>
Op(i) == LET b == 10 + 8 * i kind == r[b] % 12 IN
   [op |-> (IF kind = 0 THEN "reset" ELSE IF kind = 1 THEN "start" ELSE "predict"),
    p |-> (IF kind = 2 THEN <<5, -5, 9>> ELSE Vec(b + 1, 300)), a |-> (IF kind = 2 THEN 3 ELSE PickInt(r, b + 4, -40, 40)), inc |-> r[b + 5] % 2]
Motions == [type |-> "motion", q |-> Quat(1), m |-> Axis(5), ops |-> [i \in 1..PickInt(r, 6, 1, 9) |-> Op(i)]]
Triple(k) == PickSeq(r, k, << <<1, 2, 2>>, <<2, 3, 6>>, <<0, 3, 4>>, <<4, 4, 7>>, <<-1, 2, -2>>, <<0, 0, 5>> >>)
Pose == [type |-> "pose", q |-> Quat(1), t |-> Vec(5, 500), q2 |-> Quat(8), t2 |-> Vec(12, 500), d |-> Triple(15), s |-> PickInt(r, 16, 1, 50), m |-> Axis(17), a |-> PickInt(r, 18, 0, 180),
         C |-> [i \in 1..6 |-> PickInt(r, 20 + i, 0, 50)]]
Angles == [type |-> "angles", ypr |-> <<PickInt(r, 1, -179, 179), PickInt(r, 2, -89, 89), PickInt(r, 3, -179, 179)>>, one |-> PickInt(r, 4, -170, 170)]
Case == LET w == r[120] % 4 IN CASE w < 2 -> Motions [] w = 2 -> Pose [] w = 3 -> Angles
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
