----------------------------- MODULE MapFileMC ------------------------------
(* A file written by the specification is well formed and shows its items.     *)
EXTENDS MapFile
CONSTANT Most
VARIABLE items
A == <<0, 0, 0>>
B == <<1, 0, 0>>
C == <<0, 1, 0>>
D == <<0, 0, 1>>
Item == {[k |-> "point", c |-> <<A>>], [k |-> "point", c |-> <<B>>], [k |-> "line", c |-> <<A, B>>], [k |-> "line", c |-> <<B, C, D>>],
         [k |-> "polygon", c |-> <<A, B, C, A>>], [k |-> "polygon", c |-> <<D, A, B, C, D>>]}
Init == items = << >>
Next == Len(items) < Most /\ \E x \in Item : items' = Append(items, x)
Spec == Init /\ [][Next]_items
Good == LET f == Write(items, << >>, 0) IN WellFormed(f) /\ ObjShows(f, items)
\* and the reading tells different exports apart
Distinguishes == \A x \in Item : items # << >> /\ x # items[Len(items)] =>
                    ~ObjShows(Write(items, << >>, 0), [items EXCEPT ![Len(items)] = x])
=============================================================================
