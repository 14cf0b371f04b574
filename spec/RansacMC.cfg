SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2, 3}
  Matches = {0, 1, 2}
  Atomic = TRUE
INVARIANTS Promise
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
