---------------------------- MODULE MapFileTrace ----------------------------
EXTENDS MapFile, Conf
VARIABLE k
Judge(r) == CASE r.w = "obj" -> /\ Check("the obj file is not well formed", WellFormed(r.file))
                                /\ Check("the obj file does not show the exported map", ObjShows(r.file, r.items))
              [] r.w = "xyz" -> Check("the xyz file does not show the exported points", XyzShows(r.file, r.items))
              [] r.w = "pcd" -> Check("the pcd file does not show the exported points", PcdShows(r.file, r.items))
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
