SPECIFICATION Spec
INVARIANTS Built Rotated There Pixels Across Flipped
CHECK_DEADLOCK FALSE
