------------------------------ MODULE SpreadRand ----------------------------
(* Larger sets of re-estimations: how many, how far, which fail, from how many *)
(* matches; and a share of the matches that agree with the pose found.         *)
EXTENDS Integers, Sequences, Rand, TLC, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE c
Case(n) ==
  LET r == [k \in 0..400 |-> RV(n, Seed, k)]
      it == PickInt(r, 0, 2, IF n % 3 = 0 THEN 12 ELSE 60)
      far == PickSeq(r, 1, <<2, 40, 200>>)
      lost == PickSeq(r, 2, <<0, 1, 3, 5, 6, 8>>)  \* tenths of them fail
      m == PickSeq(r, 3, <<1, 2, 3, 7, 45>>)
      agree == PickInt(r, 4, 1, m)
  IN [it |-> it, m |-> m, agree |-> agree,
      vars |-> [i \in 1..it |-> IF r[6 * i] % 10 < lost THEN << >>
                                ELSE [a \in 1..3 |-> PickInt(r, (6 * i) + a, 0, 2 * far) - far]]]
Init == c \in {n : n \in 1..Num}
Next == FALSE /\ UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(Case(c))>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
