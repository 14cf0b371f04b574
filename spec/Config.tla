------------------------------- MODULE Config -------------------------------
(* Loading the configuration.  A file gives some of the keys, numbers in       *)
(* halves; a missing key counts as zero.  Rotations are whole quarter turns.   *)
EXTENDS Integers, Sequences
Keys == <<"size_x", "size_y", "focal_x", "focal_y", "center_x", "center_y">>
Default == [one |-> <<1280, 960, 1100, 1100, 640, 480>>, two |-> <<1280, 960, 1100, 1100, 640, 480>>, t |-> <<0, 0, 0>>, r |-> <<0, 0, 0>>]
\* a camera can be used: sizes and focals positive, centre not negative
Usable(c) == c[1] > 0 /\ c[2] > 0 /\ c[3] > 0 /\ c[4] > 0 /\ c[5] >= 0 /\ c[6] >= 0
Valid(c) == Usable(c.one) /\ Usable(c.two)
\* loads: a readable file, a file that does not exist, a reset to the defaults
Loaded(e) == IF e.op = "file" THEN [one |-> e.one, two |-> e.two, t |-> e.t, r |-> e.r] ELSE Default
Answer(e) == IF e.op = "file" THEN Valid(Loaded(e)) ELSE FALSE
\* ---- rotation by quarter turns about x, then y, then z (of the moving frame)
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
RX(k) == << <<1, 0, 0>>, <<0, Cos(k), -Sin(k)>>, <<0, Sin(k), Cos(k)>> >>
RY(k) == << <<Cos(k), 0, Sin(k)>>, <<0, 1, 0>>, <<-Sin(k), 0, Cos(k)>> >>
RZ(k) == << <<Cos(k), -Sin(k), 0>>, <<Sin(k), Cos(k), 0>>, <<0, 0, 1>> >>
D3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Mult(a, b) == LET c(j) == <<b[1][j], b[2][j], b[3][j]>> row(i) == <<D3(a[i], c(1)), D3(a[i], c(2)), D3(a[i], c(3))>> IN <<row(1), row(2), row(3)>>
Turn3(r) == Mult(Mult(RX(r[1]), RY(r[2])), RZ(r[3]))
=============================================================================
