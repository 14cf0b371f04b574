SPECIFICATION Spec
CONSTANTS
  LostAfter = 1
  PromoteAt = 2
  DropAt = 0
  MaxId = 24
  MaxDet = 4
  Len0 = 40
INVARIANTS Disjoint
CHECK_DEADLOCK FALSE
