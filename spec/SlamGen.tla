------------------------------- MODULE SlamGen ------------------------------
(* Sessions: what is seen in each frame and whether the pose is found.         *)
(* Sites 1..20 hold points (some never have a depth), 1..3 planes. In crowded  *)
(* sessions sixty more sites hold points.                                      *)
EXTENDS Slam, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
R(k) == RV(n, Seed, k)
Frames == 6 + (R(1) % 22)
Style == R(2) % 4
\* a window of frames in which something is missing
Gap(b, j) == LET a == R(b) % (Frames + 4)
                 len == IF R(b + 1) % 3 = 0 THEN 8 + (R(b + 2) % 6) ELSE R(b + 2) % 4
             IN j >= a /\ j < a + len
Crowded == R(4) % 8 = 0
Det(i, j) == IF i > Base
             THEN IF ~Crowded \/ j <= (IF R(1000 + i) % 3 = 0 THEN R(1100 + i) % 6 ELSE 0) THEN "-"
                  ELSE IF R(1200 + i) % 6 = 0 THEN "F" ELSE "S"
             ELSE IF R(3) % 3 # 0 /\ i > 12 THEN "-"
             ELSE IF Gap(20 + 4 * i, j) \/ (R(140 + i) % 5 = 0 /\ Gap(150 + 4 * i, j)) THEN "-"
             ELSE IF R(300 + i) % 5 = 0 THEN "F"
             ELSE IF R(300 + i) % 5 = 1 /\ Gap(330 + 4 * i, j) THEN "F" ELSE "S"
PlaneDet(i, j) == IF Gap(450 + 4 * i, j) \/ R(470 + i) % 5 = 0 THEN "-" ELSE "S"
Ok(j) == CASE Style = 0 -> TRUE
           [] Style = 1 -> ~Gap(500, j)
           [] Style = 2 -> ~Gap(500, j) /\ ~Gap(504, j)
           [] Style = 3 -> R(600 + j) % 3 # 0
\* the camera moves only when it is located
Step(j) == (R(700 + j) % 3) - 1
Clamp(x) == IF x > 2 THEN 2 ELSE IF x < -2 THEN -2 ELSE x
RECURSIVE Place(_)
Place(j) == IF j <= 1 THEN 0 ELSE IF Ok(j) THEN Clamp(Place(j - 1) + Step(j)) ELSE Place(j - 1)
Rejected(j) == IF R(800 + j) % 3 = 0 THEN {1 + (R(830 + j) % 20), 1 + (R(860 + j) % 20)} ELSE {}
RejectedPlanes(j) == IF R(890 + j) % 4 = 0 THEN {1 + (R(920 + j) % 3)} ELSE {}
Frame(j) == [det |-> [i \in 1..Sites |-> Det(i, j)], pl |-> [i \in 1..3 |-> PlaneDet(i, j)], ok |-> IF j > 1 /\ Ok(j) THEN 1 ELSE 0,
             k |-> Place(j), rej |-> S2S(Rejected(j)), rejf |-> S2S({x + 3 : x \in Rejected(j)} \cap 1..20), rejp |-> S2S(RejectedPlanes(j)),
             var |-> 1 + (R(950 + j) % 9)]
Case == [frames |-> [j \in 1..Frames |-> Frame(j)]]
Init == n = 0
Next == n < Num /\ n' = n + 1
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_n
=============================================================================
