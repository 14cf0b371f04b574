------------------------------ MODULE ConfigGen -----------------------------
EXTENDS Config, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..120 |-> RV(n, Seed, k)]
\* one value a time is bad or missing, in half of the cameras
Cam(k) == LET bad == r[k] % 12 kind == r[k + 1] % 3 v(i, lo, hi, step) == IF bad = i THEN (IF kind = 0 THEN 0 ELSE IF kind = 1 THEN -step ELSE -step * PickInt(r, k + 9, 1, 300)) ELSE step * PickInt(r, k + 2 + i, lo, hi)
          IN <<v(1, 1, 900, 2), v(2, 1, 900, 2), v(3, 1, 1500, 1), v(4, 1, 1500, 1), v(5, 0, 900, 1), v(6, 0, 900, 1)>>
Op(i) == LET b == 40 * (i - 1) + 1 kind == r[b] % 8 one == Cam(b + 1) two == Cam(b + 12)
             z == r[b + 30] % 3 IN
  [op |-> (IF kind = 0 THEN "none" ELSE IF kind = 1 THEN "default" ELSE "file"), one |-> one, two |-> two,
   t |-> (IF z = 0 THEN <<0, 0, 0>> ELSE <<PickInt(r, b + 31, -99, 99), PickInt(r, b + 32, -99, 99), PickInt(r, b + 33, -99, 99)>>),
   r |-> (IF z = 1 THEN <<0, 0, 0>> ELSE <<PickInt(r, b + 34, 0, 3), PickInt(r, b + 35, 0, 3), PickInt(r, b + 36, 0, 3)>>),
   omit |-> r[b + 37] % 2]
Case == [ops |-> [i \in 1..PickInt(r, 120, 1, 2) |-> Op(i)]]
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
