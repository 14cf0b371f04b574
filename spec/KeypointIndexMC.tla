--------------------------- MODULE KeypointIndexMC --------------------------
(* Every detection and every searched point of a small image: the cell index  *)
(* finds exactly what a search over all detections finds.                      *)
EXTENDS KeypointIndex
CONSTANTS Width, Height, R0
VARIABLES a, p, R
vars == <<a, p, R>>
Side == R0 + 2
Pos == [x : 0..(Width - 1), y : 0..(Height - 1)]
Init == a \in Pos /\ p \in Pos /\ R \in {R0, 2 * R0}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Frame == [det |-> << [x |-> a.x, y |-> a.y, d |-> 1] >>, trk |-> << >>]
CellsSuffice == GridCandidates(Frame, p, R, {}, Side, CeilDiv(Width, Side), CeilDiv(Height, Side)) = Candidates(Frame, p, R, {})
=============================================================================
