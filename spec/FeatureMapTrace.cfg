SPECIFICATION Spec
CONSTANTS
  LostAfter = 1
  PromoteAt = 2
  DropAt = 0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
