---------------------------- MODULE DepthMapTrace ---------------------------
EXTENDS DepthMap, Conf
VARIABLE k
Judge(o) ==
  /\ Check("the aligned depth image is not that of the scene", o.rect = 1 /\ Aligned(o, o.img, o.aligned))
  /\ Check("a point of the cloud is not that of its pixel",
        /\ o.full = 1
        /\ \A i \in DOMAIN o.cloud : LET p == Pixel(o.w, o.cell, i - 1) IN o.cloud[i] = Point(o.one, p[1], p[2], o.img[p[2] + 1][p[1] + 1]))
  /\ Check("not every whole cell is in the cloud", Len(o.cloud) = Cells(o.w, o.h, o.cell) * o.cell * o.cell)
  /\ Check("the depths are not exact", o.off <= 20)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
