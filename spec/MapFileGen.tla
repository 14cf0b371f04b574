----------------------------- MODULE MapFileGen -----------------------------
(* Exports: sequences of points, lines and polygons (coordinates in thousandths, of six digits).   *)
EXTENDS MapFile, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..200 |-> RV(n, Seed, k)]
Tens == <<1, 10, 100, 1000>>
Val(v) == IF v % 7 = 0 THEN 1000 * ((v % 5) - 2) ELSE (((v * 37) % 1999999) - 999999) * Tens[1 + ((v \div 7) % 4)]
Coord(b) == <<Val(r[b]), Val(r[b + 1] + n), Val(r[b + 2] + 2 * n)>>
ItemAt(i) == LET b == 10 + 15 * i
                 m == r[b] % 6
             IN CASE m = 0 /\ r[b] % 5 = 0 -> [k |-> "point", c |-> << <<0, 0, 0>> >>]
                  [] m = 3 /\ r[b] % 5 = 1 -> [k |-> "polygon", c |-> << >>]      \* of nothing
                  [] m < 2 -> [k |-> "point", c |-> <<Coord(b + 1)>>]
                  [] m = 2 -> [k |-> "line", c |-> [j \in 1..(2 + (r[b] % 3)) |-> Coord(b + j)]]
                  [] OTHER -> LET s == [j \in 1..(3 + (r[b] % 6)) |-> Coord(b + j)] IN [k |-> "polygon", c |-> Append(s, s[1])]
Many(i) == [k |-> "point", c |-> << <<Val(n + 31 * i), Val(n + 17 * i), i>> >>]
Sizes == <<150, 1100, 10050>>
Case == [w |-> <<"obj", "obj", "xyz", "pcd">>[1 + (r[1] % 4)], name |-> PickSeq(r, 3, <<"export", "my.map", "./a.b.c", "map 1">>),
         items |-> IF n > Num - 9 THEN [i \in 1..Sizes[1 + (n % 3)] |-> Many(i)] ELSE [i \in 1..(r[2] % 12) |-> ItemAt(i)]]
Emitted == IF n > Num - 9 THEN [Case EXCEPT !.w = IF n % 3 = 0 THEN "obj" ELSE IF n % 2 = 0 THEN "xyz" ELSE "pcd"] ELSE Case
Init == n = 0
Next == n < Num /\ n' = n + 1
Emit == CSVWrite("%1$s", <<ToJson(Emitted)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_n
=============================================================================
