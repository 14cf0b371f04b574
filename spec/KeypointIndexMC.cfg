SPECIFICATION Spec
CONSTANTS
  Width = 21
  Height = 13
  R0 = 4
INVARIANTS CellsSuffice
CHECK_DEADLOCK FALSE
