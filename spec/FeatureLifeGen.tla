---------------------------- MODULE FeatureLifeGen --------------------------
(* All words of length Len0, then Num long words made of runs.                 *)
EXTENDS FeatureLife, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Len0, Num, Seed
VARIABLES n, kind, word
vars == <<n, kind, word>>
Alphabet(k) == IF k = "plane" THEN {"S", "A", "O", "N"} ELSE {"S", "F", "A", "O", "N"}
r == [k \in 1..30 |-> RV(n, Seed, k)]
RECURSIVE Run(_, _)
Run(e, m) == IF m = 0 THEN << >> ELSE <<e>> \o Run(e, m - 1)
Letter(k, v) == IF k = "plane" THEN <<"S", "S", "A", "N", "O">>[1 + (v % 5)] ELSE <<"S", "F", "A", "N", "O", "S", "F">>[1 + (v % 7)]
Good(k) == IF k = "flat" THEN "F" ELSE "S"
Miss(v) == <<"A", "N", "O">>[1 + (v % 3)]
\* staged, confirmed, missed about as long as allowed, seen, missed again
LongWord(k) == Run(Good(k), 3 + (r[2] % 4) + (IF r[19] % 4 = 0 THEN 20 + (r[20] % 60) ELSE 0)) \o Run(Letter(k, r[3]), r[4] % 3) \o Run(Good(k), r[5] % 4)
               \o Run(Miss(r[6]), 3 + (r[7] % 6)) \o Run(Miss(r[8]), r[9] % 6)
               \o Run(Letter(k, r[10]), 1 + (r[11] % 2)) \o Run(Miss(r[12]), 6 + (r[13] % 4)) \o Run(Miss(r[14]), r[15] % 4) \o Run(Letter(k, r[16]), r[17] % 3)
               \o Run(Good(k), r[18] % 6)
Init == n = 0 /\ kind \in Kinds /\ word = << >>
Grow == n = 0 /\ Len(word) < Len0 /\ \E e \in Alphabet(kind) : word' = Append(word, e) /\ UNCHANGED <<n, kind>>
More == n < Num /\ (n > 0 \/ word = << >>) /\ n' = n + 1 /\ word' = << >> /\ UNCHANGED kind
Next == Grow \/ More
Emit == IF n = 0 THEN Len(word) < Len0 \/ CSVWrite("%1$s", <<ToJson([kind |-> kind, word |-> word, place |-> 0])>>, IOEnv.OUT)
        ELSE CSVWrite("%1$s", <<ToJson([kind |-> kind, word |-> LongWord(kind), place |-> r[1] % 24])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
=============================================================================
