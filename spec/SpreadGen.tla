------------------------------ MODULE SpreadGen -----------------------------
(* Perturbed re-estimations of a pose: offsets on a small lattice, or failure. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANT MaxIt
VARIABLE c
Offs == { << >>, <<0, 0, 0>>, <<1, 0, 0>>, <<-2, 1, 0>>, <<0, 3, -1>> }
Init == c \in UNION {[it : {n}, vars : [1..n -> Offs]] : n \in 0..MaxIt}
Next == FALSE /\ UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
