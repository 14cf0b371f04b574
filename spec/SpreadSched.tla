----------------------------- MODULE SpreadSched ----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Points, Step
VARIABLE c
V == << <<1, 0, 0>>, <<2, 0, 1>>, <<3, 1, 0>>, <<6, 0, 0>> >>
Cuts == {x \in 0..Points : x % Step = 0}
Init == \/ c \in {[vars |-> V, seg |-> << <<0, a>>, <<1, b>>, <<0, 100000>>, <<1, 100000>> >>] : a \in Cuts, b \in Cuts}
        \/ c \in {[vars |-> V, seg |-> << <<0, a>>, <<1, 100000>>, <<2, 100000>>, <<0, 100000>> >>] : a \in 0..Points}
        \/ c \in {[vars |-> V, seg |-> << <<p, a>>, <<q, a>>, <<(6 - p - q) % 4, a>>, <<q, 100000>>, <<p, 100000>> >>] : a \in 0..Points, p \in {0, 1}, q \in {2, 3}}
Next == FALSE /\ UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
