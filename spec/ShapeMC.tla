------------------------------- MODULE ShapeMC ------------------------------
(* The laws of shapes: moving one keeps its size, an overlap is counted once,  *)
(* an outline is closed and goes around the cells, and dropping on a plane     *)
(* gives a point of it.                                                        *)
EXTENDS Shape
VARIABLES a, b, k, flip, o
vars == <<a, b, k, flip, o>>
Col1 == {<<l, h>> : l \in 0..1, h \in 1..3}
Init == /\ a \in {x \in UNION {[1..n -> Col1] : n \in 1..2} : Joined(x)}
        /\ b \in {<< <<0, 2>> >>, << <<0, 1>>, <<0, 3>> >>}
        /\ k \in 0..3 /\ flip \in BOOLEAN /\ o \in {<<0, 0>>, <<1, 0>>, << -1, 2>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == Cells(a)
B == {MovedCell(k, flip, o, p) : p \in Cells(b)}
Rigid == Cardinality(B) = Cardinality(Cells(b)) /\ Cardinality(Parts(B)) = 1
Sizes == Cardinality(A \cup B) = Cardinality(A) + Cardinality(B) - Cardinality(A \cap B) /\ Biggest(A \cup B) <= Cardinality(A \cup B)
\* corners of a moved cell are the moved corners
Corners(p) == {<<p[1] + i, p[2] + j>> : i \in 0..1, j \in 0..1}
Consistent == \A p \in Cells(b) : Corners(MovedCell(k, flip, o, p)) = {Moved(k, flip, o, c) : c \in Corners(p)}
RECURSIVE Twice(_)
Twice(r) == IF Len(r) < 2 THEN 0 ELSE r[1][1] * r[2][2] - r[2][1] * r[1][2] + Twice(Tail(r))
Around == LET r == Outline(a) IN r[1] = r[Len(r)] /\ Twice(r) = 2 * Cardinality(A)
Bumps == \A e \in {-30, -11, -9, 0, 9, 11, 30} : ~(BumpGoes(200, 300, e) /\ BumpStays(200, 300, e))
Q1 == <<2, 1, 0, 0>>
Q2 == <<1, 1, 1, 0>>
Falls == \A p \in A : LET P == Place(Q1, <<1, 2, 3>>, 10, p) d == Drop(Q2, <<0, 5, 1>>, P, Norm(Q1)) n == Norm(Q1) * Norm(Q2) * Norm(Q2) IN
  /\ Dot(Sub(d, Scale(n, <<0, 5, 1>>)), Col(M(Q2), 3)) = 0
  /\ Cross(Sub(d, Scale(Norm(Q2) * Norm(Q2), P)), Col(M(Q2), 3)) = <<0, 0, 0>>
=============================================================================
