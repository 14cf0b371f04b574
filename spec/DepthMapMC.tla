----------------------------- MODULE DepthMapMC -----------------------------
(* Cells are filled without holes or collisions; the same camera twice changes *)
(* nothing; a move along an axis shifts the image by the parallax.             *)
EXTENDS DepthMap
VARIABLES w, h, cell, z
vars == <<w, h, cell, z>>
Init == w \in 1..9 /\ h \in 1..7 /\ cell \in 1..4 /\ z \in {1, 7, 64, 300}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pixels == (0..(w - 1)) \X (0..(h - 1))
WholeOnes == {p \in Pixels : Whole(w, h, cell, p[1], p[2])}
Bijection == /\ {Place(w, cell, p[1], p[2]) : p \in WholeOnes} = 0..(Cells(w, h, cell) * cell * cell - 1)
             /\ \A p \in WholeOnes : Pixel(w, cell, Place(w, cell, p[1], p[2])) = p
Cam == <<16, 8, w, h>>
I3 == RX(0)
C(t) == [one |-> Cam, two |-> Cam, t |-> t, r |-> <<0, 0, 0>>]
Same == \A p \in Pixels : LET s == Source(C(<<0, 0, 0>>), I3, p[1], p[2], z) IN s.sure /\ s.at = {p} /\ s.z = z * Scale(C(<<0, 0, 0>>))
\* a move of z along x shifts by the focal length in pixels
Shift == \A p \in Pixels : LET s == Source(C(<<z, 0, 0>>), I3, p[1], p[2], z) IN s.sure /\ s.at = {<<p[1] + 16, p[2]>>}
Behind == \A p \in Pixels : ~Source(C(<<0, 0, -z>>), I3, p[1], p[2], z).some
=============================================================================
