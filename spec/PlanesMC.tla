------------------------------- MODULE PlanesMC -------------------------------
(* The search for planes, as a system: any cell not yet taken is a seed, from   *)
(* which the connected cells of the same plane are taken; sets that are too     *)
(* small are given up.  Whatever the order of the seeds, the result is the set  *)
(* of the regions that are big enough, each once.                               *)
EXTENDS Planes
CONSTANT MinSize
VARIABLES view, left, found
vars == <<view, left, found>>
A == <<1, <<0, 0, -1>>, 400>>
B == <<1, <<0, 0, -1>>, 700>>
None == <<0, <<0, 0, -1>>, 0>>
Planar(v) == {c \in Cells : v[c][1] = 1}
Init == /\ view \in [Cells -> {A, B, None}] /\ left = Planar(view) /\ found = {}
Grow(c) == LET R == Flood({x \in left : view[x] = view[c]}, {c}, {c}) IN
  /\ left' = left \ R /\ found' = (IF Cardinality(R) >= MinSize THEN found \cup {<<view[c], R>>} ELSE found) /\ UNCHANGED view
Next == \E c \in left : Grow(c)
Spec == Init /\ [][Next]_vars
Sound == \A f \in found : f \in Regions(view) /\ Cardinality(f[2]) >= MinSize
Once == \A f, g \in found : f # g => f[2] \cap g[2] = {}
Complete == left = {} => found = {f \in Regions(view) : Cardinality(f[2]) >= MinSize}
Cover == UNION {f[2] : f \in Regions(view)} = Planar(view)
\* the histogram always gives points of a same bin, and removing a point never brings back another one
HPts == << <<0, 3>>, <<0, 5>>, <<1, 0>>, <<1, 0>>, <<2, 1>> >>
Bins == \A live \in SUBSET (1..5) : \A S \in Fullest(HPts, live) : S \subseteq live /\ (live # {} => S # {})
          /\ \A i \in live : \A T \in Fullest(HPts, live \ {i}) : i \notin T
================================================================================
