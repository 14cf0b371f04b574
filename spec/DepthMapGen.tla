----------------------------- MODULE DepthMapGen ----------------------------
EXTENDS DepthMap, Rand, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..400 |-> RV(n, Seed, k)]
F == <<4, 8, 16>>
Cam(k) == <<PickSeq(r, k, F), PickSeq(r, k + 1, F), PickInt(r, k + 2, 0, 24), PickInt(r, k + 3, 0, 20)>>
W == PickInt(r, 20, 3, 13)
H == PickInt(r, 21, 3, 10)
Base == IF r[25] % 2 = 0 THEN PickInt(r, 22, 30, 300) ELSE PickInt(r, 22, 300, 7500)
Q(k) == PickInt(r, k, -(Base \div 3), Base \div 3)
D(v, u) == LET x == r[40 + 14 * v + u] m == x % 16 IN IF m = 0 THEN 0 ELSE IF m = 1 THEN -((x \div 16) % 50) ELSE IF r[23] % 3 = 0 THEN Base ELSE Base + ((x \div 16) % (IF r[23] % 3 = 1 THEN 40 ELSE 200))
Case == LET one == Cam(1) kind == r[10] % 6 IN
  [w |-> W, h |-> H, cell |-> PickInt(r, 24, 2, 5), one |-> one,
   two |-> (IF kind = 0 THEN one ELSE Cam(5)),
   t |-> (IF kind <= 1 THEN <<0, 0, 0>> ELSE <<Q(11), Q(12), IF kind = 2 THEN 0 ELSE 2 * Q(13)>>),
   r |-> <<0, (IF kind = 5 /\ r[14] % 4 = 0 THEN 2 ELSE 0), (IF kind >= 4 THEN r[15] % 4 ELSE 0)>>,
   img |-> [v \in 1..H |-> [u \in 1..W |-> D(v, u)]]]
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
