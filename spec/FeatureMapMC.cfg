SPECIFICATION Spec
CONSTANTS
  LostAfter = 1
  PromoteAt = 2
  DropAt = 0
  MaxId = 3
  MaxDet = 2
  Min = 1
  Depth = 11
  Emit = FALSE
VIEW view
CONSTRAINT Bound
INVARIANTS Disjoint FreshIds ConfirmedOnly WrittenOnce WrittenGone OneOwner MarksInFrame NotLost StagedAlive
PROPERTIES NeverBack NeverReborn
CHECK_DEADLOCK FALSE
