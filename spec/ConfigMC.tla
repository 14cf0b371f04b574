------------------------------ MODULE ConfigMC ------------------------------
(* Whatever was loaded before, the configuration in use is the last one loaded *)
(* in whole, and it is said usable exactly when it is.                         *)
EXTENDS Config
VARIABLES cfg, valid, last
vars == <<cfg, valid, last>>
Cam == {<<a, 960, b, 1100, c, 0>> : a \in {-2, 0, 1280}, b \in {-1, 0, 1100}, c \in {-1, 0, 640}}
Good == <<1280, 960, 1100, 1100, 640, 480>>
Loads == {[op |-> "file", one |-> c, two |-> Good, t |-> <<1, 2, 3>>, r |-> <<1, 0, 0>>] : c \in Cam}
         \cup {[op |-> "file", one |-> Good, two |-> c, t |-> <<0, 0, 0>>, r |-> <<0, 1, 3>>] : c \in Cam}
         \cup {[op |-> "none"], [op |-> "default"]}
Init == cfg = Default /\ valid = FALSE /\ last = [op |-> "start"]
Load(e) == cfg' = Loaded(e) /\ valid' = Valid(Loaded(e)) /\ last' = e
Next == \E e \in Loads : Load(e)
Spec == Init /\ [][Next]_vars
InUse == last.op # "start" => cfg = Loaded(last) /\ valid = Valid(cfg)
DefaultsUsable == last.op \in {"none", "default"} => valid
Rotation == \A r \in (0..3) \X (0..3) \X (0..3) : LET A == Turn3(r) T == <<<<A[1][1], A[2][1], A[3][1]>>, <<A[1][2], A[2][2], A[3][2]>>, <<A[1][3], A[2][3], A[3][3]>>>> IN Mult(A, T) = RX(0)
=============================================================================
