----------------------------- MODULE FeatureLife ----------------------------
(* Life of one map feature of each kind, one event a frame:                    *)
(*  "S" seen with a depth, "F" seen without depth, "A" not detected,           *)
(*  "O" the camera looks elsewhere, "N" the frame could not be located.        *)
EXTENDS Integers, Sequences

Kinds == {"point", "flat", "plane"}
None == [w |-> "none", s |-> 0, f |-> 0, wr |-> 0]

Seen(ev) == ev \in {"S", "F"}
\* points need a depth to be created, 2D points are the ones without, planes are always created
Creates(kind, ev) == \/ kind = "point" /\ ev = "S"
                     \/ kind = "flat" /\ ev = "F"
                     \/ kind = "plane" /\ Seen(ev)
Promoted(kind, s) == IF kind = "plane" THEN s >= 4 ELSE s >= 3
Dropped(kind, s, f) == IF kind = "plane" THEN f >= 2 ELSE s <= 0
Lost(kind, f) == IF kind = "plane" THEN f >= 10 ELSE f > 10
\* 2D points are not written to the map file
Written(kind) == IF kind = "flat" THEN 0 ELSE 1

Counted(st, ev) == IF Seen(ev) THEN [st EXCEPT !.s = @ + 1, !.f = 0, !.wr = 0] ELSE [st EXCEPT !.s = @ - 1, !.f = @ + 1, !.wr = 0]
After(kind, st, ev) ==
  LET c == Counted(st, ev) IN
  CASE st.w = "none" -> IF Creates(kind, ev) THEN [None EXCEPT !.w = "staged"] ELSE None
    [] st.w = "staged" -> IF ev # "N" /\ Promoted(kind, c.s) THEN [c EXCEPT !.w = "local", !.f = 0]
                          ELSE IF Dropped(kind, c.s, c.f) THEN None ELSE c
    [] st.w = "local" -> IF Lost(kind, c.f) THEN [None EXCEPT !.wr = Written(kind)] ELSE c
=============================================================================
